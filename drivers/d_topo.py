"""Z2 and spin texture calculators."""
import copy
import numpy as np
import tbplas as tb
from enc import fx, cx, iv, omit
import mk
from d_spec import cert, Fake

S = 1000000


def wilson(model, ks, occ):
    """Eigenvalues of the loop product of the occupied states."""
    n, vs = model.num_orb, []
    for k in ks:
        h = np.zeros((n, n), dtype=np.complex128)
        model.set_ham_dense(k, h, convention=2)
        vs.append(np.linalg.eigh(h)[1].T[:occ])
    d = np.eye(occ, dtype=complex)
    for i, v in enumerate(vs):
        d = d @ (v.conj() @ vs[(i + 1) % len(vs)].T)
    return np.linalg.eigvals(d)


def wrap(tr):
    p = np.array(tr, dtype=float) / S
    p = p - 2 * np.pi * np.round(p / (2 * np.pi))
    return np.sort(p, axis=1)


def op(o, e, m, model, z2, st, occ):
    k = o["op"]
    if k == "addhop":
        t = o["t"]
        model.add_hopping(tuple(t[:3]), t[3], t[4], complex(t[5], t[6]))
    elif k == "seteng":
        if hasattr(model, "d"):
            model.d["orb"][o["i"]]["e"] = o["e"]
        else:
            model.set_orbital(o["i"], energy=o["e"])
    elif k == "setk":
        kk = np.array(o["ks"], dtype=float) / o["kd"]
        if o["inplace"] and kk.shape == st.k_grid.shape:
            st.k_grid[:] = kk
        else:
            st.k_grid = kk
    elif k == "new":
        e["res"] = tb.Z2(model, num_occ=o["occ"], echo_details=False).num_occ
    elif k == "z2":
        ka, kb, kc = (np.array(o[x], dtype=float) / o["kd"] for x in ("ka", "kb", "kc"))
        kb2, ph = z2.calc_phases(ka, kb, **omit(dict(kc=float(kc)), kc=0.0))
        e["samekb"] = bool(np.array_equal(kb2, kb))
        e["ph"] = [[fx(x, S) for x in r] for r in ph]
        e["cs"] = [[cx(np.exp(1j * x), S) for x in r] for r in ph]
        ks = [[np.array([a, b, float(kc)]) for a in ka] for b in kb]
        e["cert"] = [[cert(model, None, x, 2) for x in r] for r in ks]
        e["lam"] = [[cx(z, S) for z in wilson(model, r, occ)] for r in ks]
    elif k == "z2def":
        kb, ph = z2.calc_phases()
        kb1 = np.linspace(0.0, 0.5, 100)
        _, ph1 = z2.calc_phases(np.linspace(-0.5, 0.5, 200), kb1, 0.0)
        e["res"] = bool(np.allclose(kb, kb1, atol=1e-12)) \
            and ph.shape == ph1.shape and bool(np.max(np.abs(ph - ph1)) < 1e-6)
    elif k == "reorder":
        w = wrap(o["tr"])
        w0 = w.copy()
        z = tb.Z2(model, num_occ=w.shape[1], echo_details=False)
        r = z.reorder_phases(w, **omit(dict(threshold=o["thr"] / S,
                                            smooth=o["smooth"]),
                                       threshold=0.1, smooth=True))
        e["keep"] = bool(np.array_equal(w, w0))
        e["res"] = [[fx(x, S) for x in row] for row in r]
    elif k == "count":
        e["res"] = iv(tb.Z2.count_crossing(np.array(o["ph"], dtype=float) / 1000,
                                           **omit(dict(phase_ref=o["ref"] / 1000),
                                                  phase_ref=0.5)))
    elif k == "spin":
        r = st.eval(**omit(dict(component=o["comp"]), component="z"))
        e["res"] = [[fx(x, S) for x in row] for row in r]
        e["cert"] = [cert(model, None, kk, 1) for kk in st.k_grid]
    elif k == "kcart":
        f = o["kd"] / (2 * np.pi)
        e["res"] = [[iv(f * np.dot(c, a)) for a in model.lat_vec] for c in st.k_cart]


def run_case(case):
    cf = case["cfg"]
    if cf["fake"]:
        model = Fake(copy.deepcopy(cf["pc"]))
    else:
        model = mk.Model(dict(pcs=[cf["pc"]], scs=[], ihs=[], sp=dict(sc=[], ih=[]))).pcs[0]
    z2 = tb.Z2(model, num_occ=cf["occ"], echo_details=False)
    st = tb.SpinTexture(model, np.array(cf["ks"], dtype=float) / cf["kd"],
                        **omit(dict(spin_major=cf["major"]), spin_major=True),
                        echo_details=False)
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            op(o, e, None, model, z2, st, cf["occ"])
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:120]
        ev.append(e)
    return dict(ev=ev)
