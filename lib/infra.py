"""Shared machinery: scratch build of /repo, TLC runs, driver pools, evidence."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    """The check itself could not run; exit status 2."""


def log(msg):
    print(f"[{time.strftime('%H:%M:%S')}] {msg}", flush=True)


# --------------------------------------------------------------------------
# Build
# --------------------------------------------------------------------------
def build_pkg(scratch):
    """Build tbplas from the working tree of REPO into scratch/pkg."""
    src, bld, inst, pkg = (os.path.join(scratch, d)
                           for d in ("src", "bld", "inst", "pkg"))
    ign = shutil.ignore_patterns("*.so", "__pycache__", "*.pyc", "*.mod", "*.o")
    os.makedirs(os.path.join(src, "tbplas"))
    shutil.copy(os.path.join(REPO, "CMakeLists.txt"), src)
    shutil.copy(os.path.join(REPO, "tbplas/__init__.py"),
                os.path.join(src, "tbplas"))
    for d in ("fortran", "cython"):
        shutil.copytree(os.path.join(REPO, "tbplas", d),
                        os.path.join(src, "tbplas", d), ignore=ign)
    env = dict(os.environ)
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("PYTHONPATH", "CFLAGS", "FFLAGS"):
        env.pop(k, None)
    cmds = [
        ["cmake", "-S", src, "-B", bld, "-G", "Ninja", "--log-level=NOTICE",
         "-DSKBUILD_PROJECT_NAME=tbplas", "-DCMAKE_BUILD_TYPE=Release",
         f"-DPython_EXECUTABLE={PY}", f"-DPYTHON_EXECUTABLE={PY}",
         "-DCYTHON=/opt/venv/bin/cython", "-DUSE_INDEX64=OFF", "-DUSE_MKL=OFF",
         "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_Fortran_COMPILER=gfortran",
         "-DCMAKE_C_FLAGS=",
         "-DCMAKE_Fortran_FLAGS=-cpp -fopenmp -fno-second-underscore"],
        ["cmake", "--build", bld],
        ["cmake", "--install", bld, "--prefix", inst],
    ]
    for cmd in cmds:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise MachineryError("build failed: %s\n%s" % (" ".join(cmd[:3]),
                                                          p.stdout[-3000:]))
    shutil.copytree(os.path.join(REPO, "tbplas"), os.path.join(pkg, "tbplas"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__",
                                                  "*.pyc", "*.f90", "*.pyx"))
    for d in ("fortran", "cython"):
        sdir = os.path.join(inst, "tbplas", d)
        n = 0
        for f in os.listdir(sdir):
            if f.endswith(".so"):
                shutil.copy(os.path.join(sdir, f),
                            os.path.join(pkg, "tbplas", d, f))
                n += 1
        if n == 0:
            raise MachineryError(f"no extension module built in {d}")
    for d in (src, bld, inst):
        shutil.rmtree(d, ignore_errors=True)
    return pkg


def run_env(pkg, scratch, omp=1):
    env = dict(os.environ)
    env.update({
        "PYTHONPATH": pkg + ":" + DRV, "PYTHONDONTWRITEBYTECODE": "1",
        "MPLBACKEND": "Agg", "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "OMPI_MCA_btl": "self", "OMPI_MCA_pml": "ob1",
        "OMPI_MCA_orte_tmpdir_base": scratch, "TMPDIR": scratch,
        "OPENBLAS_NUM_THREADS": "1", "OMP_STACKSIZE": "64M",
        "OMP_NUM_THREADS": str(omp), "PYTHONHASHSEED": "0",
        "VERIF_PKG": pkg, "HOME": scratch,
    })
    return env


# --------------------------------------------------------------------------
# Driver pool
# --------------------------------------------------------------------------
MAX_HANGS = 4


class Pool:
    """Runs cases through worker processes that survive crashes and hangs."""

    def __init__(self, driver, pkg, scratch, nproc=None, case_timeout=90):
        self.driver = driver
        self.pkg = pkg
        self.scratch = scratch
        self.nproc = nproc or max(2, NCPU - 1)
        self.case_timeout = case_timeout
        self.stderr = []
        self.hangs = 0              # further cases are left out after a few

    def _shard(self, idx, cases, out):
        pending = list(cases)
        restarts = 0
        while pending and self.hangs < MAX_HANGS:
            wd = os.path.join(self.scratch, f"wd_{self.driver}_{idx}_{restarts}")
            os.makedirs(wd, exist_ok=True)
            errf = open(os.path.join(wd, "stderr"), "w+")
            env = run_env(self.pkg, wd)
            p = subprocess.Popen(
                [PY, os.path.join(DRV, "worker.py"), self.driver],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=errf,
                env=env, cwd=wd, text=True, start_new_session=True)
            got_ready = False
            try:
                while pending and self.hangs < MAX_HANGS:
                    case = pending[0]
                    t0 = time.time()
                    timer = threading.Timer(self.case_timeout, self._kill, (p,))
                    timer.start()
                    try:
                        p.stdin.write(json.dumps(case) + "\n")
                        p.stdin.flush()
                        line = p.stdout.readline()
                    except (BrokenPipeError, OSError):
                        line = ""
                    timer.cancel()
                    if not line:
                        p.wait()
                        self.hangs += time.time() - t0 > self.case_timeout - 1
                        errf.flush()
                        errf.seek(0)
                        tail = errf.read()[-2000:]
                        if not got_ready and "VERIF-READY" not in tail:
                            # import of the package itself failed
                            self.stderr.append(tail)
                        out.append(dict(id=case["id"], cfg=case.get("cfg", {}),
                                        ev=[dict(op="died",
                                                 why="exit %s" % p.returncode)]))
                        pending.pop(0)
                        restarts += 1
                        break
                    got_ready = True
                    tr = json.loads(line)
                    self.hangs += any(e.get("out") == "hang" for e in tr["ev"])
                    out.append(tr)
                    pending.pop(0)
            finally:
                self._kill(p)
                for s in (p.stdin, p.stdout):
                    try:
                        s.close()
                    except OSError:
                        pass
                p.wait()
                errf.close()
                shutil.rmtree(wd, ignore_errors=True)
            if restarts > 25:
                for case in pending:
                    out.append(dict(id=case["id"], cfg=case.get("cfg", {}),
                                    ev=[dict(op="died", why="too many deaths")]))
                break

    @staticmethod
    def _kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def run(self, cases):
        shards = [[] for _ in range(self.nproc)]
        for i, c in enumerate(cases):
            shards[i % self.nproc].append(c)
        outs = [[] for _ in shards]
        with cf.ThreadPoolExecutor(self.nproc) as ex:
            fs = [ex.submit(self._shard, i, s, outs[i])
                  for i, s in enumerate(shards) if s]
            for f in fs:
                f.result()
        res = {t["id"]: t for o in outs for t in o}
        return [res[c["id"]] for c in cases if c["id"] in res]


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
def tlc(module, cfg_text, scratch, tag, env=None, workers=4, extra=(),
        timeout=800, heap="3g"):
    """Run TLC in a private copy of the spec directory; return its output."""
    wd = os.path.join(scratch, "tlc_" + tag)
    os.makedirs(wd)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), wd)
    with open(os.path.join(wd, tag + ".cfg"), "w") as fh:
        fh.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC",
           f"-Djava.io.tmpdir={wd}", "-cp", tlc_classpath(), "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(wd, "md"),
           "-noGenerateSpecTE", "-config", tag + ".cfg", *extra, module]
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or ""
        if isinstance(out, bytes):
            out = out.decode("utf8", "replace")
        rc = -9
    shutil.rmtree(os.path.join(wd, "md"), ignore_errors=True)
    return rc, out


_CP = None


def tlc_classpath():
    global _CP
    if _CP is None:
        jars = [JAR]
        d = os.path.dirname(JAR)
        for f in sorted(os.listdir(d)):
            if f.endswith(".jar") and f != os.path.basename(JAR):
                jars.append(os.path.join(d, f))
        _CP = ":".join(jars)
    return _CP


def tlc_stats(out):
    m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, "
                   r"(\d[\d,]*) distinct states found", out)
    if m:
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))
    m = re.findall(r"Progress: (\d[\d,]*) states checked", out)
    if m:
        g = int(m[-1].replace(",", ""))
        return g, g
    return 0, 0


FAIL_RE = re.compile(r'<<"FAIL", "([^"]*)", (\d+), (\{[^}]*\})>>')


def parse_fails(out):
    # TLC may wrap long tuples over several lines.
    flat = re.sub(r"\s*\n\s*", " ", out)
    flat = flat.replace("<< ", "<<").replace(" >>", ">>")
    flat = flat.replace("{ ", "{").replace(" }", "}")
    fails = []
    for m in FAIL_RE.finditer(flat):
        clauses = re.findall(r'"([^"]*)"', m.group(3))
        fails.append((m.group(1), int(m.group(2)), sorted(clauses)))
    return fails


def validate(module, traces, scratch, tag, workers=4, timeout=800, shards=1,
             consts=""):
    """Validate recorded traces with TLC. Returns (fails, states, transitions)."""
    parts = [traces[i::shards] for i in range(shards)]
    parts = [p for p in parts if p]

    def one(i):
        part = parts[i]
        path = os.path.join(scratch, f"trace_{tag}_{i}.ndjson")
        with open(path, "w") as fh:
            for t in part:
                fh.write(json.dumps(t) + "\n")
        cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n" + consts
        rc, out = tlc(module, cfg, scratch, f"{tag}_{i}", env={"TRACE": path},
                      workers=workers, timeout=timeout)
        os.remove(path)
        fails = parse_fails(out)
        ok = "Model checking completed. No error has been found" in out
        gen, dist = tlc_stats(out)
        if not ok:
            if "Parsing or semantic analysis failed" in out:
                raise MachineryError("specification does not parse:\n"
                                     + out[-1500:])
            if len(part) == 1:
                if rc == -9:
                    raise MachineryError(f"TLC timed out on {tag}")
                return [(part[0]["id"], 0,
                         ["observation_not_evaluable: " + tlc_error(out)])], 0, 0
            return None
        expect = sum(len(t["ev"]) + 1 for t in part)
        if not fails and dist != expect:
            raise MachineryError(f"TLC visited {dist} states, expected {expect}"
                                 f" for {tag}: traces were not fully consumed")
        if out.count('<<"FAIL"') + out.count('<< "FAIL"') != len(fails):
            raise MachineryError("could not parse FAIL lines:\n" + out[-2000:])
        return fails, dist, gen

    with cf.ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(len(parts))))
    fails, st, tr = [], 0, 0
    for i, r in enumerate(res):
        if r is None:
            part = parts[i]
            if len(part) > 1:
                h = len(part) // 2
                for j, sub in enumerate((part[:h], part[h:])):
                    f, s, t = validate(module, sub, scratch, f"{tag}_{i}{'ab'[j]}",
                                       workers, timeout, 1, consts)
                    fails += f
                    st += s
                    tr += t
            continue
        f, s, t = r
        fails += f
        st += s
        tr += t
    return fails, st, tr


def tlc_error(out):
    m = re.search(r"Error: (.*?)(?:\n\n|\Z)", out, re.S)
    txt = m.group(1) if m else out[-300:]
    return re.sub(r"\s+", " ", txt)[:300]


def model_check(module, cfg_text, scratch, tag, timeout=600, workers=4):
    rc, out = tlc(module, cfg_text, scratch, tag, workers=workers,
                  timeout=timeout)
    if "Model checking completed. No error has been found" not in out:
        raise MachineryError(f"model {module}/{tag} not verified:\n"
                             + out[-3000:])
    return tlc_stats(out)


def simulate(module, cfg_text, scratch, tag, num, depth, seed, timeout=300):
    """Let TLC generate behaviours; they are appended as JSON lines to a file."""
    path = os.path.join(scratch, f"sim_{tag}.ndjson")
    rc, out = tlc(module, cfg_text, scratch, tag, env={"SIMOUT": path},
                  workers=1, timeout=timeout,
                  extra=["-simulate", f"num={num}", "-depth", str(depth),
                         "-seed", str(seed)])
    if "Error:" in out and "Simulation" not in out:
        raise MachineryError(f"simulation {tag} failed:\n" + out[-3000:])
    if not os.path.exists(path):
        raise MachineryError(f"simulation {tag} wrote nothing:\n" + out[-3000:])
    lines = []
    with open(path) as fh:
        for ln in fh:
            ln = ln.strip()
            if ln:
                # CSVWrite quotes nothing; ToJson yields one line
                val = json.loads(ln)
                lines.append(json.loads(val) if isinstance(val, str) else val)
    os.remove(path)
    return lines


# --------------------------------------------------------------------------
# Known findings
# --------------------------------------------------------------------------
def known_findings(prop):
    """Open findings for a property: [{case, clause, text}]."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [k for k in data.get("open", []) if k["property"] == prop]
