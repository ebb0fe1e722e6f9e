"""Analyses of correlation functions with an Analyzer."""
import numpy as np
import tbplas as tb
from tbplas.tbpm import analysis
from enc import fx, cx, iv

S = 1000000


def win(w):
    return {"hann": tb.window_hanning, "exp": tb.window_exp,
            "ten": tb.window_exp_ten, "one": lambda i, t: 1.0,
            "lin": lambda i, t: 1 - i / (2 * t)}[w]


def build(d):
    pc = tb.PrimitiveCell(np.array(d["lat"], dtype=float), unit=tb.NM)
    for i in range(d["norb"]):
        pc.add_orbital((i / 8, 0.1, 0.2), energy=0.5)
    pc.add_hopping((1, 0, 0), 0, 0, -1.0)
    if d["ext"] != [1, 1, 1]:
        pc = tb.extend_prim_cell(pc, dim=tuple(d["ext"]))
    scs = [tb.SuperCell(pc, dim=tuple(d["dim"]), pbc=(True, False, False))
           for _ in range(d["nsc"])]
    sp = tb.Sample(*scs)
    sp.rescale_ham(float(d["f"]))
    return sp


def carr(x):
    a = np.array(x, dtype=float) / 1000
    return a[..., 0] + 1j * a[..., 1]


DEF = {"dos": "hann", "ldos": "hann", "ac": "exp", "dp": "ten", "dc": "exp",
       "diff": "exp"}


def call(sp, cf, an, d, o):
    op = o["op"]
    if op == "rescale":
        sp.rescale_ham(float(o["f"]))
        return {}
    if op == "new":
        c = tb.Config()
        if not o["known"]:
            c.generic["nr_steps"] = 1
        tb.Analyzer(sp, c, dimension=o["dim"])
        return {}
    if op == "win":
        return dict(res=[fx(win(o["w"])(i, o["T"]), S) for i in o["is"]])
    g = cf.generic
    g["nr_time_steps"] = o["T"]
    g["correct_spin"] = o.get("spin", False)
    if "beta" in o:
        g["beta"] = o["beta"] / S
    kw = {}
    if "w" in o and not (o.get("dflt") and DEF[op] == o["w"]):
        kw["window_dc" if op in ("dc", "diff") else "window"] = win(o["w"])
    if "wd" in o and not (o.get("dflt") and o["wd"] == "hann"):
        kw["window_dos"] = win(o["wd"])
    f = float(sp.rescale)
    if op in ("dos", "ldos"):
        c = carr(o["corr"])
        keep = c.copy()
        e, r = getattr(an, "calc_" + op)(c, **kw)
        return dict(en=[fx(x, S) for x in e], res=[fx(x, S) for x in r],
                    kept=bool(np.array_equal(c, keep)))
    if op == "ac":
        # the real part of the correlation function does not matter
        im = np.array(o["corr"], dtype=float) / 1000
        c = 1j * im + np.arange(im.size).reshape(im.shape) % 7 * 0.25
        keep = c.copy()
        w, r = an.calc_ac_cond(c, **kw)
        return dict(om=[fx(x, S) for x in w],
                    res=[[cx(z, S) for z in row] for row in r],
                    kept=bool(np.array_equal(c, keep)))
    if op == "dp":
        qs = o["qs"]
        cf.dyn_pol["q_points"] = np.array(qs, dtype=float) if o["arr"] else qs
        c = np.array(o["corr"], dtype=float) / 1000
        q, w, r = an.calc_dyn_pol(c, **kw)
        return dict(om=[fx(x, S) for x in w], q=[[iv(x) for x in p] for p in q],
                    res=[[cx(z, S) for z in row] for row in r])
    if op == "eps":
        cf.dyn_pol["q_points"] = [[float(x) for x in p] for p in o["qs"]]
        cf.dyn_pol["coulomb_constant"] = o["coul"] / S
        cf.dyn_pol["background_dielectric_constant"] = o["beps"] / S
        dp = carr(o["dp"])
        keep = dp.copy()
        r = an.calc_epsilon(dp)
        return dict(res=[[cx(z, S) for z in row] for row in r],
                    kept=bool(np.array_equal(dp, keep)))
    if op == "eps0":
        cf.dyn_pol["background_dielectric_constant"] = o["beps"] / S
        r = an.calc_epsilon_q0(np.array(o["omi"], dtype=float), carr(o["ac"]))
        return dict(res=[[cx(z, S) for z in row] for row in r])
    if op in ("dc", "diff"):
        T = o["T"]
        b = 0.0 if o.get("edge") and (f / T * 64).is_integer() else 0.5
        cf.DC_conductivity["energy_limits"] = ((o["lo"] - b) * f / T - f,
                                               (o["hi"] + b) * f / T - f)
        full = np.zeros((2, 2 * T, T), dtype=complex)
        ne = max(0, o["hi"] - o["lo"] + 1)
        if ne:
            full[:, :ne] = carr(o["corr"])
        if op == "dc":
            dc = carr(o["dcorr"])
            keep = dc.copy()
            e, r = an.calc_dc_cond(dc, full, **kw)
            return dict(en=[fx(x, S) for x in e],
                        res=[[fx(x, S) for x in row] for row in r],
                        kept=bool(np.array_equal(dc, keep)))
        t, r = an.calc_diff_coeff(full, **kw)
        return dict(tm=[fx(x, S) for x in t],
                    res=[[[fx(x, S) for x in b] for b in a] for a in r])
    if op == "hall":
        cf.dckb["energies"] = [x / S for x in o["ens"]]
        cf.dckb["n_kernel"] = o["ker"]
        cf.dckb["ne_integral"] = o["ne"]
        m = carr(o["mu"])
        if o["unit"] == "h_bar" and o.get("dflt"):
            e, r = an.calc_hall_cond(m)
        else:
            e, r = an.calc_hall_cond(m, unit=o["unit"])
        return dict(en=[fx(x, S) for x in e], res=[fx(x, S) for x in r])


def run_case(case):
    d = case["cfg"]
    sp = build(d)
    cf = tb.Config()
    an = tb.Analyzer(sp, cf, dimension=d["dim_"])
    evs = []
    for o in case["ops"]:
        e = dict(o)
        try:
            e.update(call(sp, cf, an, d, o))
            e["out"] = "ok"
        except Exception as ex:
            e["out"] = type(ex).__name__
            e["msg"] = str(ex)[:200]
        evs.append(e)
    return dict(ev=evs, cfg=dict(d, dim=d["dim_"]))
