"""Exact diagonalization: bands, projections, DOS and eigenstates."""
import numpy as np
import tbplas as tb
from enc import fx, cx, iv, omit
import mk

S = 1000000


class Fake(tb.FakePC):
    """Analytical Hamiltonian of a model description."""
    def __init__(self, d):
        super().__init__(len(d["orb"]), np.array(d["lat"], dtype=float) * 10)
        self.d = d

    def ham(self, k, conv):
        d, n = self.d, self.num_orb
        h = np.zeros((n, n), dtype=complex)
        pos = np.array([o["p"] for o in d["orb"]]) / 48
        for t in {tuple(t[:5]): t for t in d["hop"]}.values():
            dr = np.array(t[:3], dtype=float)
            if conv == 1:
                dr = dr + pos[t[4]] - pos[t[3]]
            v = complex(t[5], t[6]) * np.exp(2j * np.pi * np.dot(k, dr))
            h[t[3], t[4]] += v
            h[t[4], t[3]] += v.conjugate()
        for i, o in enumerate(d["orb"]):
            h[i, i] += o["e"]
        return h

    def set_ham_dense(self, k_point, ham_dense, convention=1):
        if convention not in (1, 2):
            raise ValueError("convention")
        ham_dense += self.ham(k_point, convention)

    def set_ham_csr(self, k_point, convention=1):
        from scipy.sparse import csr_matrix
        if convention not in (1, 2):
            raise ValueError("convention")
        return csr_matrix(self.ham(k_point, convention))


def cert(model, ov, k, conv):
    import scipy.linalg as sl
    n = model.num_orb
    if hasattr(model, "sync_array"):
        model.sync_array()
    else:
        model.init_orb_eng()
        model.init_hop()
    h = np.zeros((n, n), dtype=np.complex128)
    model.set_ham_dense(k, h, convention=conv)
    s = None
    if ov is not None:
        ov.sync_array()
        s = np.zeros((n, n), dtype=np.complex128)
        ov.set_overlap_dense(k, s, convention=conv)
    e, v = sl.eigh(h, s)
    return pack(e, v.T)


def pack(e, v):
    return dict(E=[fx(x, S) for x in e], V=[[cx(z, S) for z in r] for r in v])


def orbs(o):
    f = o["oform"]
    if f == "iter":
        return iter(o["orbs"])
    return {"list": list, "tuple": tuple, "array": np.array, "set": set}[f](o["orbs"])


def calc(sol, model, ov, o):
    ks = np.array(o["ks"], dtype=float) / o["kd"]
    kw = omit(dict(convention=o["conv"], solver=o["solver"]), convention=1,
              solver="lapack")
    if o["solver"] == "arpack":
        if o["k"]:
            kw["k"] = o["k"]
        if o["which"] != "LM" and ov is None:
            kw["which"] = o["which"]
    r = {}
    if o["op"] == "states":
        e, v = sol.calc_states(ks, **kw)
        r["res"] = [pack(e[i], v[i]) for i in range(len(e))]
    else:
        if o["hasproj"]:
            kw["orbital_indices"] = orbs(o)
        if o["op"] == "bands":
            if o.get("meth"):
                kl, b = model.calc_bands(ks, **{k: v for k, v in kw.items()})
                p = np.ones(b.shape)
            else:
                kl, b, p = sol.calc_bands(ks, **kw)
            kl = np.asarray(kl)
            f = o["kd"] * o["det"] / (2 * np.pi)
            st = np.diff(kl)
            r.update(bands=[[fx(x, S) for x in row] for row in b],
                     proj=[[fx(x, S) for x in row] for row in p],
                     step2=[iv((x * f) ** 2, 1, 1e-3) for x in st],
                     first=fx(kl[0]), mono=bool(np.all(st >= 0)))
        else:
            kw.update(omit(dict(e_step=o["estep"] / S, sigma=o["sg"] / S,
                                basis=o["basis"], g_s=o["gs"]),
                           e_step=0.05, sigma=0.05, basis="Gaussian", g_s=1))
            if not o["auto"]:
                kw.update(e_min=o["emin"] / S, e_max=o["emax"] / S)
            en, dos = (model if o.get("meth") else sol).calc_dos(ks, **kw)
            r.update(en=[fx(x, S) for x in en], dos=[fx(x, S) for x in dos])
    r["cert"] = [cert(model, ov, k, o["conv"]) for k in ks]
    return r


def run_case(case):
    d = case["cfg"]
    m = mk.Model(d)
    who = case["who"]
    ov = mk.overlap(m.pcs[0], d["ov"]) if who == "ov" else None
    model = m.sample() if who == "sp" else Fake(d["pcs"][0]) if who == "fake" \
        else m.pcs[0]
    sol = tb.DiagSolver(model, overlap=ov, echo_details=False)
    pc = m.pcs[0]
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            op = o["op"]
            if op == "addorb":
                pc.add_orbital(tuple(x / 48 for x in o["p"]), energy=o["e"])
            elif op == "addhop":
                t = o["t"]
                pc.add_hopping(tuple(t[:3]), t[3], t[4], complex(t[5], t[6]))
            elif op == "seteng":
                pc.set_orbital(o["i"], energy=o["e"])
            elif op == "remorb":
                pc.remove_orbital(o["i"])
            else:
                e.update(calc(sol, model, ov, o))
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:120]
        ev.append(e)
    return dict(ev=ev)
