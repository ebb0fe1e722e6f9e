"""find_neighbors on primitive cells and supercells."""
import math
import tbplas as tb
from enc import iv, omit
import mk


def ref(m, r):
    return (m.pcs if r[0] == "pc" else m.scs)[r[1] - 1]


def run_case(case):
    m = mk.Model(case["cfg"])
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            kw = omit(dict(zip(("a_max", "b_max", "c_max"), o["box"])),
                      a_max=0, b_max=0, c_max=0)
            if o["ket"]:
                kw["cell_ket"] = ref(m, o["ket"])
            if o["d2"] != 2303:         # else the default distance
                kw["max_distance"] = math.sqrt(o["d2"] + 0.5) / 48
            res = tb.find_neighbors(ref(m, o["bra"]), **kw)
            e["list"] = [[int(v) for v in t.rn] + [int(t.pair[0]), int(t.pair[1])]
                         + [iv(v, 48) for v in t.rij]
                         + [iv(t.distance ** 2, 2304, 1e-5)] for t in res]
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:120]
        ev.append(e)
    return dict(ev=ev)
