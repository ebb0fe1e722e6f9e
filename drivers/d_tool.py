"""Records timers, progress bars, seeds, banners and TBPM parameters."""
import contextlib
import copy
import io
import os
import random
import re
import shutil
import time

CLOCK = [None]


def _fake(real):
    def f(*a):
        return real(*a) if CLOCK[0] is None else CLOCK[0]
    return f


for _n in ("time", "perf_counter", "monotonic"):
    setattr(time, _n, _fake(getattr(time, _n)))

import numpy as np  # noqa: E402
import tbplas as tb  # noqa: E402
from enc import iv, fx  # noqa: E402

SECS = ("generic", "LDOS", "dyn_pol", "DC_conductivity", "dckb", "quasi_eigenstates")
DEFAULT = {s: copy.deepcopy(getattr(tb.Config(), s)) for s in SECS}
SAMPLE = []


def sample():
    if not SAMPLE:
        pc = tb.PrimitiveCell(np.eye(3), unit=tb.NM)
        pc.add_orbital((0, 0, 0))
        pc.add_hopping((1, 0, 0), 0, 0, -1.0)
        SAMPLE.append(tb.Sample(tb.SuperCell(pc, dim=(3, 1, 1), pbc=(True, False, False))))
    return SAMPLE[0]


def captured(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f()
    return [t for t in buf.getvalue().split("\n") if t.strip()]


class State:
    def __init__(self):
        self.now = 1000.0
        self.tm = [tb.Timer(), tb.Timer()]
        self.bar = None
        self.cf = [tb.Config(), tb.Config()]
        self.par = [[], []]
        self.n = 0


def conf(c, par, temps):
    keys = set(par)
    rest = all(getattr(c, s).get(k, None) == v for s in SECS for k, v in DEFAULT[s].items()
               if (s, k) not in keys and (s, k) != ("generic", "beta"))
    return dict(vals=[iv(getattr(c, s)[k]) for s, k in par], rest=bool(rest),
                kt=fx(1 / c.generic["beta"], 1e9))


def call(s, o):
    op = o["op"]
    if op == "adv":
        s.now += o["dt"] / 8
    elif op in ("tic", "toc"):
        getattr(s.tm[o["i"] - 1], op)(o["slot"])
    elif op == "rst":
        s.tm[o["i"] - 1].reset()
    elif op == "rep":
        t = s.tm[o["i"] - 1]
        rows = []
        for line in captured(t.report_total_time if o["which"] == "tot" else t.report_time):
            a, b = line.rsplit(":", 1)
            rows.append([a.strip(), iv(b, 8)])
        return dict(rows=rows)
    elif op == "bar":
        s.bar = tb.ProgressBar(o["n"], num_scales=o["s"]) if o["named"] or o["s"] != 10 \
            else tb.ProgressBar(o["n"])
    elif op == "cnt":
        rows, pc = [], 0
        for line in captured(s.bar.count):
            v = re.findall(r"\d+\.?\d*", line)
            rows.append([int(v[0]), int(v[1])])
            pc = fx(v[2], 100)
        return dict(rows=rows, pc=pc)
    elif op == "seeds":
        random.seed(o["r"])
        real, rng = os.urandom, random.Random(o["r"])
        if o["fake"]:
            os.urandom = lambda n: bytes(rng.choice([0, 1, 255]) for _ in range(n))
        try:
            got = tb.gen_seeds(o["n"])
        finally:
            os.urandom = real
        return dict(got=[iv(x) if abs(int(x)) < 1.9e9 else f"{x}" for x in got]
                    if not any(abs(int(x)) >= 1.9e9 for x in got)
                    else [f"{x}" for x in got],
                    whole=all(isinstance(x, int) for x in got))
    elif op == "banner":
        f = tb.print_banner_block if o["block"] else tb.print_banner_line
        rows = captured(lambda: f(o["word"], width=o["width"], mark=o["mark"], end=o["end"]))
        m = rows[len(rows) // 2]
        return dict(lens=[len(t) for t in rows],
                    text=o["word"] in m and all(t.startswith(o["end"]) and t.endswith(o["end"])
                                                for t in rows))
    elif op == "temp":
        if o["temp"] == 300 and o["dflt"]:
            s.cf[o["i"] - 1].set_temperature()
        else:
            s.cf[o["i"] - 1].set_temperature(o["temp"])
    elif op == "par":
        c = s.cf[o["i"] - 1]
        getattr(c, o["sec"])[o["key"]] = o["v"]
        if (o["sec"], o["key"]) not in s.par[o["i"] - 1]:
            s.par[o["i"] - 1].append((o["sec"], o["key"]))
    elif op == "wrong":
        getattr(s.cf[o["i"] - 1], o["sec"])[o["key"]] = 1
    elif op == "newc":
        s.cf[o["i"] - 1] = tb.Config()
        s.par[o["i"] - 1] = []
    elif op == "check":
        c = s.cf[o["i"] - 1]
        if o["how"] == "check":
            c.check_params()
        elif o["how"] == "solver":
            tb.Solver(sample(), c, echo_details=False, directory="out_tool", prefix="p")
        else:
            tb.Analyzer(sample(), c)
    elif op == "store":
        c = s.cf[o["i"] - 1]
        name = f"f{s.n}"
        s.n += 1
        solver = tb.Solver(sample(), c, echo_details=False, directory="out_tool", prefix=name)
        if o["again"]:
            c.generic["seed"] = c.generic["seed"]
            solver.save_config("again.pkl")
            name += ".again.pkl"
        else:
            name += ".config.pkl"
        s.cf[o["i"] - 1] = tb.read_config("out_tool/" + name)
    elif op == "conf":
        return dict(obs=[conf(s.cf[i], s.par[i], 0) for i in range(2)])
    return {}


def run_case(case):
    s = State()
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            CLOCK[0] = s.now if o["op"] in ("tic", "toc", "rep", "rst") else None
            with contextlib.redirect_stdout(io.StringIO()):
                e.update(call(s, o))
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:160]
        finally:
            CLOCK[0] = None
        ev.append(e)
    shutil.rmtree("out_tool", ignore_errors=True)
    return dict(ev=ev)
