"""Lindhard response functions."""
import numpy as np
import tbplas as tb
from enc import fx, cx, iv, coin, omit
import mk
from d_spec import cert

S = 1000000
KB = 8.617333262e-5
TP = 2 * np.pi


def mesh60(n):
    return np.array([[a * 60 // n[0], b * 60 // n[1], c * 60 // n[2]]
                     for a in range(n[0]) for b in range(n[1])
                     for c in range(n[2])], dtype=float)


def call(lin, pc, cf, o):
    op = o["op"]
    fort = dict(use_fortran=o.get("fort"))
    if op == "new":
        tb.Lindhard(pc, tuple(o["mesh"]), dimension=o["dim"], echo_details=False)
        return {}
    if op == "dyn":
        n = cf["mesh"]
        if o["meth"] == "reg":
            q = [[x * n[d] // 60 for d, x in enumerate(p)] for p in o["qs"]]
            if o["form"] == "array":
                q = np.array(q, dtype=np.int64)
            om, r = lin.calc_dyn_pol_regular(q, **omit(fort, use_fortran=True))
        else:
            rec = tb.gen_reciprocal_vectors(pc.lat_vec)
            q = np.array(o["qs"], dtype=float) / 60 @ rec
            if o["form"] == "list":
                q = [list(x) for x in q]
            om, r = lin.calc_dyn_pol_arbitrary(q, **omit(fort, use_fortran=True))
        mk_ = mesh60(n)
        return dict(om=[fx(x, S) for x in om],
                    res=[[cx(z, S) for z in row] for row in r],
                    ck=[cert(pc, None, k / 60, 2) for k in mk_],
                    cq=[[cert(pc, None, (k + np.array(p)) / 60, 2) for k in mk_]
                        for p in o["qs"]])
    if op == "ac":
        om, r = lin.calc_ac_cond(**omit(dict(component=o["ca"] + o["cb"], **fort),
                                        component="xx", use_fortran=True))
        return dict(om=[fx(x, S) for x in om], res=[cx(z, S) for z in r],
                    ck=[cert(pc, None, k / 60, 1) for k in mesh60(cf["mesh"])])
    if op == "eps":
        rec = tb.gen_reciprocal_vectors(pc.lat_vec)
        q = np.array(o["qs"], dtype=float) / o["qd"] @ rec
        if o["form"] == "list":
            q = [list(x) for x in q]
        dp = np.array([[complex(z[0], z[1]) / S for z in row] for row in o["dp"]])
        r = lin.calc_epsilon(q, dp)
        return dict(res=[[cx(z, S) for z in row] for row in r])
    if op == "eps0":
        dp = np.array([complex(z[0], z[1]) / S for z in o["dp"]])
        r = lin.calc_epsilon_q0(np.array(o["omi"], dtype=float), dp)
        return dict(res=[cx(z, S) for z in r])
    if op == "geo":
        pts = o["pts"]
        a = np.array(pts, dtype=np.int64)
        g = pts if o["form"] == "list" else a
        fr = np.array(pts, dtype=float) / 64
        wf = lin.wrap_frac(fr.tolist() if o["form"] == "list" else fr)
        gf = lin.grid2frac(g)
        u = o["unit"] / 10
        gc = lin.grid2cart(g, **omit(dict(unit=u), unit=1))
        gc2 = lin.frac2cart(gf, **omit(dict(unit=u), unit=1))
        back = lin.cart2frac(gc2, **omit(dict(unit=u), unit=1))
        d = o["det"]
        same = np.allclose(gc, gc2)
        return dict(wfrac=[[iv(x, 64) for x in p] for p in wf],
                    wgrid=[[iv(x) for x in p] for p in lin.wrap_grid(g)],
                    gfrac=[[iv(x, 60) for x in p] for p in gf],
                    gcart=[[iv(x, 60 * d / TP / u, 1e-4) for x in p] for p in gc]
                    if same else [],
                    back=[[iv(x, 60) for x in p] for p in back])
    return {}


def run_case(case):
    d = case["cfg"]
    cf = d["lind"]
    pc = mk.prim_cell(d["pcs"][0])
    pc.extended = float(cf["ext"])
    T = 300.0 if cf["beta"] == 38681727 else 1 / (KB * cf["beta"] / S)
    kw = omit(dict(energy_min=cf["emin"] / S, mu=cf["mu"] / S, temperature=T,
                   g_s=cf["gs"], back_epsilon=cf["beps"] / S, dimension=cf["dim"]),
              energy_min=0, mu=0, temperature=300, g_s=1, back_epsilon=1,
              dimension=3)
    lin = tb.Lindhard(pc, tuple(cf["mesh"]),
                      energy_max=(cf["emin"] + cf["ne"] * cf["estep"]) / S,
                      energy_step=cf["ne"], **kw,
                      delta=cf["delta"] / S, echo_details=False)
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            op = o["op"]
            if op == "addorb":
                pc.add_orbital(tuple(x / 48 for x in o["p"]), energy=o["e"])
            elif op == "addhop":
                t = o["t"]
                pc.add_hopping(tuple(t[:3]), t[3], t[4], complex(t[5], t[6]))
            elif op == "seteng":
                pc.set_orbital(o["i"], energy=o["e"])
            elif op == "remorb":
                pc.remove_orbital(o["i"])
            else:
                e.update(call(lin, pc, cf, o))
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:120]
        ev.append(e)
    return dict(ev=ev)
