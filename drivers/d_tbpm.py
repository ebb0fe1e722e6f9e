"""Wave-function propagation and correlation functions of a Solver."""
import os
import pickle
import numpy as np
from scipy.special import jn_zeros
import tbplas as tb
from enc import fx, cx, iv, coin, omit
import mk

S = 1000000
_rho = {}


def config(T, m, seed, beta=2000000, mu=0, fft=2 ** 14):
    c = tb.Config()
    c.generic["nr_time_steps"] = T
    c.generic["nr_random_samples"] = m
    c.generic["seed"] = seed
    c.generic["beta"] = beta / S
    c.generic["mu"] = mu / S
    c.generic["nr_Fermi_fft_steps"] = fft
    return c


def probe(n, k):
    """Sample of n orbitals with a dense Hamiltonian of its own."""
    rng = np.random.RandomState(1000 * n + k)
    pc = tb.PrimitiveCell(unit=tb.NM)
    for i in range(n):
        pc.add_orbital((i / (n + 1), 0, 0), energy=float(rng.uniform(-5, 5)))
    for i in range(n):
        for j in range(i + 1, n):
            pc.add_hopping((0, 0, 0), i, j,
                           complex(rng.uniform(-3, 3), rng.uniform(-3, 3)))
    sp = tb.Sample(tb.SuperCell(pc, dim=(1, 1, 1), pbc=(False,) * 3))
    h = sp.build_ham_csr().toarray()
    sp.rescale_ham(float(np.abs(h).sum(axis=1).max() + 1))
    return sp, h


def rho(seed, n, m):
    """Average density matrix of the random initial states, reconstructed from
    the density-of-states correlations of probe samples, with the residual."""
    key = (seed, n, m)
    if key not in _rho:
        A, y = [], []
        T = 6 * n + 6
        for k in range(n + 3):
            sp, h = probe(n, k)
            c = tb.Solver(sp, config(T, m, seed), echo_details=False,
                          directory="probe", prefix="p").calc_corr_dos()
            e, v = np.linalg.eigh(h)
            dt = 2 * np.pi / sp.energy_range
            for t in range(T + 1):
                u = (v * np.exp(-1j * e * dt * t)) @ v.conj().T
                A.append(u.T.ravel())          # Tr R U = sum R_ij U_ji
                y.append(c[t])
        x, _, rank, _ = np.linalg.lstsq(np.array(A), np.array(y), rcond=None)
        res = float(np.abs(np.array(A) @ x - np.array(y)).max())
        _rho[key] = (x.reshape(n, n), res if rank == n * n else 1.0)
    return _rho[key]


def rcert(seed, n, m):
    r, res = rho(seed, n, m)
    w, v = np.linalg.eigh((r + r.conj().T) / 2)
    return dict(rho=[[cx(z, S) for z in row] for row in r], res=fx(res, S),
                psi=[cx(z, S) for z in v[:, -1]], top=fx(w[-1], S))


def hcert(sp):
    h = sp.build_ham_csr().toarray() * sp.rescale
    e, v = np.linalg.eigh(h)
    return dict(E=[fx(x, S) for x in e], V=[[cx(z, S) for z in v[:, i]]
                                            for i in range(len(e))])


def saved(where, key, data):
    f = "%s/s.%s.npy" % (where, key)
    if not os.path.exists(f):
        return "missing"
    d = np.load(f)
    os.remove(f)
    return "same" if d.shape == np.shape(data) and np.array_equal(
        d, data, equal_nan=True) else "different"


def call(m, st, o):
    sp, op = st["sp"], o["op"]
    if op == "rescale":
        sp.rescale_ham(float(o["f"]))
        return {}
    if op == "mag":
        sp.set_magnetic_field(4135.666734 * 0.4 * o["b"], gauge=o["g"])
        return {}
    if op == "reset":
        sp.reset_array()
        return {}
    cf = st["cf"]
    if op == "param":
        c = tb.Config()
        getattr(c, o["sec"])[o["key"]] = 1
        tb.Solver(sp, c, echo_details=False, directory="out", prefix="q")
        return {}
    g = cf.generic
    if op == "cfg":
        d = dict(T=5, seed=7, mu=0.25, sites=[1, 0], ker=12)
        c = tb.Config()
        c.generic.update(nr_time_steps=d["T"], seed=d["seed"], mu=d["mu"])
        c.LDOS["site_indices"] = d["sites"]
        c.dckb["n_kernel"] = d["ker"]
        c.DC_conductivity["energy_limits"] = (-0.25, 0.75)
        c.quasi_eigenstates["energies"] = [0.5]
        c.dyn_pol["q_points"] = [[0.5, 0, 0]]
        tb.Solver(sp, c, echo_details=False, directory="out", prefix="cf")
        r = tb.read_config("out/cf.config.pkl")
        r.check_params()
        return dict(same=all(getattr(r, s) == getattr(c, s) for s in (
            "generic", "LDOS", "dyn_pol", "DC_conductivity", "dckb",
            "quasi_eigenstates")))
    g.update(nr_time_steps=o["T"], nr_random_samples=o["m"], seed=o["seed"],
             Bessel_max=o.get("bmax", 250), wfn_check_steps=o.get("chk", 128))
    if "beta" in o:
        g.update(beta=o["beta"] / S, mu=o["mu"] / S)
    n = sp.num_orb
    f = float(sp.rescale)
    sv = st["sv"]
    ev = dict(n=n)
    if op == "psi":
        p0 = np.array([complex(*z) for z in o["psi"]])
        keep = p0.copy()
        tl = o["tl"]
        if o["form"] == "array":
            tl = np.array(tl, dtype=np.int64)
        dt = o["h"] / 2
        if "zero" in o:
            # argument of the Bessel functions at one of their zeros
            dt = float(jn_zeros(*o["zero"])[-1] / np.pi)
            ev["h6"] = fx(2 * dt, S)
        elif "dt6" in o:
            dt = o["dt6"] / S
            ev["h6"] = 2 * o["dt6"]
        r = sv.calc_psi_t(p0 if o["form"] == "array" else list(p0), tl,
                          dt_scale=dt, save_data=True)
        ev.update(res=[[cx(z, S) for z in row] for row in r],
                  file=saved(st["dir"], "psi_t", r), kept=bool(np.array_equal(p0, keep)))
    elif op == "dos":
        r = sv.calc_corr_dos()
        ev.update(res=[cx(z, S) for z in r], file=saved(st["dir"], "corr_DOS", r))
    elif op == "ldos":
        cf.LDOS["site_indices"] = o["sites"]
        r = sv.calc_corr_ldos()
        ev.update(res=[cx(z, S) for z in r], file=saved(st["dir"], "corr_LDOS", r))
    elif op == "ac":
        r = sv.calc_corr_ac_cond()
        ev.update(res=[[cx(z, S) for z in row] for row in r],
                  file=saved(st["dir"], "corr_AC", r))
    elif op == "dyn":
        q = [[2 * np.pi * 48 / 720 * x / o["qd"] for x in p] for p in o["qs"]]
        cf.dyn_pol["q_points"] = np.array(q) if o["form"] == "array" else q
        r = sv.calc_corr_dyn_pol()
        ev.update(res=[[fx(z, S) for z in row] for row in r],
                  file=saved(st["dir"], "corr_dyn_pol", r))
    elif op == "dc":
        T = o["T"]
        b = 0.0 if o.get("edge") else 0.5     # limits on the grid or between its points
        cf.DC_conductivity["energy_limits"] = ((o["lo"] - b) * f / T - f,
                                               (o["hi"] + b) * f / T - f)
        d, r = sv.calc_corr_dc_cond()
        ne = max(0, o["hi"] - o["lo"] + 1)
        ev.update(dos=[cx(z, S) for z in d],
                  shape=list(r.shape), rest=bool(np.all(r[:, ne:] == 0)),
                  res=[[[cx(z, S) for z in r[a, i]] for i in range(ne)]
                       for a in range(2)],
                  file=saved(st["dir"], "corr_DC", r), dfile=saved(st["dir"], "corr_DOS", d))
    elif op == "qe":
        cf.quasi_eigenstates["energies"] = [x / S for x in o["ens"]]
        r = sv.calc_quasi_eigenstates(save_data=True)
        ev.update(res=[[fx(z, S) for z in row] for row in r],
                  file=saved(st["dir"], "qe", r))
    elif op == "hall":
        cf.dckb["n_kernel"] = o["ker"]
        cf.dckb["direction"] = o["dir"]
        r = sv.calc_hall_mu()
        ev.update(res=[[cx(z, S) for z in row] for row in r],
                  file=saved(st["dir"], "hall_mu", r))
    elif op == "hay":
        cf.LDOS["site_indices"] = [o["site"]]
        cf.LDOS["delta"] = o["delta"] / S
        cf.LDOS["recursion_depth"] = o["depth"]
        e, r = sv.calc_ldos_haydock()
        ev.update(en=[fx(x, S) for x in e], res=[fx(x, S) for x in r],
                  file=saved(st["dir"], "ldos_haydock", r))
    ev.update(c=hcert(sp))
    if op not in ("psi", "hay"):
        ev["r"] = rcert(o["seed"], n, o["m"])
    return ev


def run_case(case):
    m = mk.Model(case["cfg"])
    sp = m.sample()
    cf = config(4, 1, 1, fft=case.get("fft", 2 ** 14))
    st = dict(sp=sp, cf=cf)
    evs = []
    for o in case["ops"]:
        e = dict(o)
        try:
            if o["op"] not in ("rescale", "mag", "reset") and "sv" not in st:
                st["dir"] = "out" if coin() else "sim_data"
                st["sv"] = tb.Solver(sp, cf, echo_details=False, prefix="s",
                                     **omit(dict(directory=st["dir"]),
                                            directory="sim_data"))
            e.update(call(m, st, o))
            e["out"] = "ok"
        except Exception as ex:
            e["out"] = type(ex).__name__
            e["msg"] = str(ex)[:200]
        evs.append(e)
    return dict(ev=evs)
