"""Runs one history serially and as a parallel program with mpirun."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import tbplas as tb
import mpi_prog

MPIRUN = shutil.which("mpirun")


def launch(p, args, wd, timeout):
    """Exit status of a parallel program of p processes, None for a time-out."""
    env = dict(os.environ, TMPDIR=wd, OMPI_MCA_orte_tmpdir_base=wd,
               OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_hwloc_base_binding_policy="none",
               OMPI_MCA_btl_vader_single_copy_mechanism="none",
               OMPI_MCA_mpi_yield_when_idle="1")
    for k in ("OMPI_MCA_btl", "OMPI_MCA_pml"):
        env.pop(k, None)
    pr = subprocess.Popen([MPIRUN, "-n", str(p), "--oversubscribe", sys.executable]
                          + args, cwd=wd, env=env, stdin=subprocess.DEVNULL,
                          stdout=subprocess.DEVNULL,
                          stderr=open(os.path.join(wd, "err"), "w"),
                          start_new_session=True)
    try:
        return pr.wait(timeout)
    except subprocess.TimeoutExpired:
        return None
    finally:
        try:
            os.killpg(pr.pid, signal.SIGTERM)
            pr.wait(10)
        except (ProcessLookupError, subprocess.TimeoutExpired):
            pass
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def split(o):
    from tbplas.utils import split_list, split_range
    e = dict(rng=[list(r) for r in split_range(o["n"], o["g"])], a=[], b=[], dflt=[])
    if o["n"] >= o["g"]:
        raw = [7 * i + 1 for i in range(o["n"])]
        e.update(a=split_list(raw, o["g"], algorithm="range"),
                 b=split_list(raw, o["g"], algorithm="remainder"))
    return e


def run_case(case):
    cfg, ops = case["cfg"], case["ops"]
    if cfg["kind"] == "split":
        return dict(ev=[dict(o, out="ok", **split(o)) for o in ops])
    wd = tempfile.mkdtemp()
    here = os.getcwd()
    try:
        os.chdir(wd)
        ser = mpi_prog.Prog(cfg, False, cfg["p"]).run(
            [o for o in ops])
        job = os.path.join(wd, "job.json")
        with open(job, "w") as f:
            json.dump(case, f)
        prog = os.path.join(os.path.dirname(os.path.abspath(__file__)), "mpi_prog.py")
        rc = launch(cfg["p"], [prog, job, os.path.join(wd, "res")], wd, 80)
        par = []
        for r in range(cfg["p"]):
            f = os.path.join(wd, "res.%d" % r)
            if os.path.exists(f):
                with open(f) as g:
                    par.append(json.load(g))
        if rc != 0 or len(par) != cfg["p"]:
            with open(os.path.join(wd, "err")) as g:
                err = g.read()[-600:]
            return dict(ev=[dict(op="run", out="hang" if rc is None else "died",
                                 got=len(par), msg=err)])
        if any(x["size"] != cfg["p"] for x in par):
            raise RuntimeError("mpirun did not start %d processes" % cfg["p"])
        ev = [dict(op="run", out="ok")]
        for i, o in enumerate(ops):
            ev.append(dict(o, ser=ser[i], par=[x["ev"][i] for x in par]))
        return dict(ev=ev)
    finally:
        os.chdir(here)
        shutil.rmtree(wd, ignore_errors=True)
