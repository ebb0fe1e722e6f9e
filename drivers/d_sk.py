"""Slater-Koster integrals and spin-orbit coupling."""
import numpy as np
import tbplas as tb
from tbplas.builder import SOC, SOCTable
from tbplas.builder.advanced import SOCTable2
from enc import fx, cx, omit

P = ("px", "py", "pz")


def ang(lab):
    return 0 if lab == "s" else 1 if lab in P else 2


def sk(o):
    r = np.array([x * o["mul"] for x in o["r"]]) if o["mul"] != 1 \
        else np.array(o["r"], dtype=int if o["int"] else float)
    u = 12 * o["n"] ** 4
    v = {"v_" + k: complex(*x) * u if x[1] else x[0] * u
         for k, x in o["v"].items()}
    s = tb.SK()
    a, b = o["la"], o["lb"]
    v = omit(v, **{k: 0 for k in v})
    if not o["direct"]:
        return s.eval(r, **omit(dict(label_i=a, label_j=b), label_i="s",
                                label_j="s"), **v)
    n = "spd"[ang(a)] + "spd"[ang(b)]
    kw = {k: x for k, x in v.items()
          if k[2:4] in (n, n[::-1])}
    if n in ("pp", "dd"):
        kw.update(omit(dict(label_i=a, label_j=b), label_i="px" if n == "pp"
                       else "dxy", label_j="px" if n == "pp" else "dxy"))
    else:
        lab = dict(zip(n, (a, b)))
        kw.update(omit({"label_" + q: lab[q] for q in n if q != "s"},
                       label_p="px", label_d="dxy"))
    return getattr(s, n)(*(() if n == "ss" else (r,)), **kw)


def run_case(case):
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            if o["op"] == "sk":
                e["val"] = cx(sk(o), 1)
            else:
                c = dict(SOC=SOC, SOCTable=SOCTable, SOCTable2=SOCTable2)
                kw = omit(dict(label_i=o["la"], spin_i=o["sa"], label_j=o["lb"],
                               spin_j=o["sb"]), label_i="s", spin_i="up",
                          label_j="s", spin_j="down")
                e["val"] = cx(c[o["cls"]]().eval(**kw), 1200000)
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:120]
        ev.append(e)
    return dict(ev=ev)
