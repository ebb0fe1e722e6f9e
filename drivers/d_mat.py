"""Ready-made materials."""
import numpy as np
import tbplas as tb
from enc import fx, omit

S = 1000000


def make(o):
    n, kw = o["mat"], {}
    for a, b in (("c", "c"), ("t", "t"), ("lam", "soc_lambda")):
        if a in o:
            kw[b] = o[a] / 1000
    if n == "diamond":
        return tb.make_graphene_diamond(**kw)
    if n in ("rect", "reshaped"):
        if n == "reshaped":
            kw["from_scratch"] = False
        return tb.make_graphene_rect(**kw)
    if n == "sp":
        return tb.make_graphene_sp(**kw)
    if n in ("qsh", "normal"):
        return tb.make_graphene_soc(**omit(dict(is_qsh=n == "qsh"), is_qsh=True))
    if n == "phosphorene":
        return tb.make_black_phosphorus(**kw)
    if n in ("antimonene", "antimonene_soc"):
        return tb.make_antimonene(**omit(dict(with_soc=n.endswith("soc")),
                                         with_soc=True), **kw)
    if n == "mos2_soc":
        return tb.make_mos2_soc()
    return tb.make_tmdc(**omit(dict(material=n), material="MoS2"))


def energies(pc, k, kd):
    kk = np.array([[x / kd for x in k] + [0.0]])
    b = tb.DiagSolver(pc, echo_details=False).calc_bands(kk).bands[0]
    return [fx(x, S) for x in sorted(b)]


def moments(pc, k, kd):
    """<i|H^p|i> for p = 2, 3 from the eigenstates"""
    kk = np.array([[x / kd for x in k] + [0.0]])
    b, v = tb.DiagSolver(pc, echo_details=False).calc_states(kk)
    w = np.abs(v[0]) ** 2          # (band, orbital)
    return [[fx(x, 10000) for x in w.T @ b[0] ** p] for p in (2, 3)]


def run_case(case):
    ev, pc = [], None
    for o in case["ops"]:
        e = dict(o)
        try:
            if o["op"] == "make":
                pc = make(o)
                v = pc.lat_vec
                e.update(n=int(pc.num_orb), aa=fx(v[0] @ v[0], S), bb=fx(v[1] @ v[1], S),
                         ab=fx(v[0] @ v[1], S), c=fx(np.linalg.norm(v[2]), S),
                         hop=pc.num_hop > 0)
            elif o["op"] == "bands":
                e["E"] = [energies(pc, k, o["kd"]) for k in o["ks"]]
                e["M"] = [moments(pc, k, o["kd"]) for k in o["ks"]]
            elif o["op"] == "same":
                p2 = make(o)
                e.update(E=[energies(pc, k, o["kd"]) for k in o["ks"]],
                         F=[energies(p2, k, o["kd"]) for k in o["ks2"]])
            e["out"] = "ok"
        except Exception as x:
            e["out"] = type(x).__name__
            e["msg"] = str(x)[:200]
        ev.append(e)
    return dict(ev=ev)
