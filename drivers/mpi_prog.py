"""One history of operations, run by every process of a parallel program or by
a serial one. Each result is a flat list of integers (numbers in 1e-6) that does
not depend on the phases or the basis of degenerate eigenstates."""
import json
import os
import sys
import numpy as np
import tbplas as tb
from enc import fx, cx, iv
import mk

S = 1000000
KB = 8.617333262e-5


def flat(x):
    x = np.asarray(x)
    v = np.ascontiguousarray(x).ravel()
    if np.iscomplexobj(v):
        return [fx(y, S) for z in v for y in (z.real, z.imag)]
    return [fx(z, S) for z in v]


def ints(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in ints(y)]
    return [int(x)]


def sums(e, w):
    """Sums over the bands of E^j w, j = 0..2."""
    return [fx(z, S) for a, b in zip(e, w) for j in range(3)
            for z in [np.sum(a ** j * b)]]


def array(o, rank):
    a = np.array(o["data"][rank], dtype=float)
    if o["cplx"]:
        a = a[..., 0] + 1j * a[..., 1]
    a = a.reshape(o["shape"])
    if o["order"] == "F":
        a = np.asfortranarray(a)
    elif o["order"] == "S":
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        a = b[sl]
    return a


class Prog:
    def __init__(self, cfg, mpi, size):
        self.cfg, self.mpi, self.size = cfg, mpi, size
        self.env = tb.parallel.MPIEnv(enable_mpi=mpi) if hasattr(tb, "parallel") \
            else __import__("tbplas.parallel", fromlist=["x"]).MPIEnv(enable_mpi=mpi)
        k = cfg["kind"]
        kw = dict(enable_mpi=mpi, echo_details=False)
        if k == "diag":
            self.pc = mk.prim_cell(cfg["pc"])
            self.sol = tb.DiagSolver(self.pc, **kw)
            self.z2 = tb.Z2(self.pc, num_occ=cfg["occ"], **kw)
            self.st = tb.SpinTexture(self.pc, np.array(cfg["ks"], dtype=float) / cfg["kd"],
                                     spin_major=cfg["major"], **kw)
            c = cfg["lind"]
            self.lin = tb.Lindhard(
                self.pc, tuple(c["mesh"]), energy_min=c["emin"] / S,
                energy_max=(c["emin"] + c["ne"] * c["estep"]) / S,
                energy_step=c["ne"], mu=c["mu"] / S,
                temperature=1 / (KB * c["beta"] / S), dimension=c["dim"],
                delta=c["delta"] / S, **kw)
        elif k == "tbpm":
            self.sp = mk.Model(cfg["m"]).sample()
            self.sp.rescale_ham(float(cfg["f"]))
            self.cf = tb.Config()
            self.cf.generic["nr_Fermi_fft_steps"] = 2 ** 12
            self.cf.generic["nr_random_samples"] = cfg["ns"]
            self.sv = tb.Solver(self.sp, self.cf, directory="out",
                                prefix="s" if mpi else "serial", **kw)
            self.an = tb.Analyzer(self.sp, self.cf, enable_mpi=mpi,
                                  dimension=cfg["dim"])

    # distribution and collectives -------------------------------------------
    def dist(self, o):
        r = self.env.dist_range(o["n"])
        b = self.env.dist_bound(o["n"])
        e = dict(rng=list(r), bound=[int(x) for x in b], lst=[])
        if o["n"] >= self.size:
            raw = [10 * i + 3 for i in range(o["n"])]
            e["lst"] = [self.env.dist_list(raw), self.env.dist_list(raw, "range"),
                        self.env.dist_list(raw, algorithm="remainder")]
        return e

    def coll(self, o):
        a = array(o, self.env.rank)
        keep = a.copy()
        f = getattr(self.env, o["f"])
        r = f(a)
        if o["f"] == "bcast":
            r, same = a, True
        else:
            same = bool(np.array_equal(a, keep))
        return dict(res=[] if r is None else flat(r), none=r is None, kept=same,
                    shape=[] if r is None else list(r.shape))

    # exact diagonalization --------------------------------------------------
    def diag(self, o):
        op = o["op"]
        if op == "seteng":
            self.pc.set_orbital(o["i"], energy=o["e"])
            return []
        if op == "addhop":
            t = o["t"]
            self.pc.add_hopping(tuple(t[:3]), t[3], t[4], complex(t[5], t[6]))
            return []
        if op == "setk":
            self.st.k_grid = np.array(o["ks"], dtype=float) / o["kd"]
            return []
        if op == "z2":
            ka, kb = (np.array(o[x], dtype=float) / o["kd"] for x in ("ka", "kb"))
            _, ph = self.z2.calc_phases(ka, kb, 0.0)
            return [fx(z, S) for r in ph for j in range(1, 4)
                    for z in (np.sum(np.cos(j * r)), np.sum(np.sin(j * r)))]
        if op == "spin":
            e, _ = tb.DiagSolver(self.pc, echo_details=False).calc_states(self.st.k_grid)
            return sums(e, self.st.eval(o["comp"]))
        if op in ("dyn", "ac"):
            if op == "ac":
                om, r = self.lin.calc_ac_cond(component=o["comp"], use_fortran=o["fort"])
            elif o["meth"] == "reg":
                om, r = self.lin.calc_dyn_pol_regular(o["qs"], use_fortran=o["fort"])
            else:
                q = self.lin.grid2cart(np.array(o["qs"]))
                om, r = self.lin.calc_dyn_pol_arbitrary(q, use_fortran=o["fort"])
            return flat(om) + flat(r)
        ks = np.array(o["ks"], dtype=float) / o["kd"]
        kw = dict(convention=o["conv"])
        if op == "bands":
            kw["orbital_indices"] = o["orbs"] or None
            r = self.sol.calc_bands(ks, **kw)
            return flat(r.k_len) + flat(r.bands) + sums(r.bands, r.proj)
        if op == "dos":
            en, d = self.sol.calc_dos(ks, e_min=-12.0, e_max=12.0, e_step=1.5, sigma=0.8,
                                      orbital_indices=o["orbs"] or None, **kw)
            return flat(en) + flat(d)
        e, v = self.sol.calc_states(ks, all_reduce=o["red"], **kw)
        rows = []
        for a, b in zip(e, v):       # the Hamiltonian rebuilt from the states
            rows.append(flat(a) + flat((b.T * a) @ b.conj()))
        if not o["red"]:             # only the entries of this process are filled
            own = set(self.env.dist_range(len(ks)))
            return [r if i in own else [] for i, r in enumerate(rows)]
        return [x for r in rows for x in r]

    # TBPM -------------------------------------------------------------------
    def tbpm(self, o):
        op, cf, sv, g = o["op"], self.cf, self.sv, self.cf.generic
        f = float(self.sp.rescale)
        if op == "ns":
            g["nr_random_samples"] = o["n"]
            return []
        if not self.mpi and o["sampled"]:
            while g["nr_random_samples"] % self.size:
                g["nr_random_samples"] += 1
        T = o["T"]
        g.update(nr_time_steps=T, seed=o["seed"], beta=1.5, mu=0.25)
        cf.DC_conductivity["energy_limits"] = (-0.6 * f, 0.4 * f)
        cf.LDOS["site_indices"] = o.get("sites", [0])
        cf.LDOS["recursion_depth"] = 6
        q = o.get("qs", [[1, 0, 0]])
        cf.dyn_pol["q_points"] = np.array(q, dtype=float)
        cf.quasi_eigenstates["energies"] = [x * f / 10 for x in o.get("ens", [0])]
        cf.dckb["n_kernel"] = T + 2
        cf.dckb["energies"] = [-0.5, 0.0, 0.75]
        cf.dckb["ne_integral"] = 7
        out = []
        if op == "psi":
            out = flat(sv.calc_psi_t(np.ones(self.sp.num_orb) / 2, [0, T]))
        elif op == "hay":
            out = [z for x in sv.calc_ldos_haydock() for z in flat(x)]
        elif op == "dos":
            c = sv.calc_corr_dos()
            out = flat(c) + sum((flat(x) for x in self.an.calc_dos(c)), [])
        elif op == "ldos":
            c = sv.calc_corr_ldos()
            out = flat(c) + sum((flat(x) for x in self.an.calc_ldos(c)), [])
        elif op == "ac":
            c = sv.calc_corr_ac_cond()
            w, r = self.an.calc_ac_cond(c)
            out = flat(c) + flat(w) + flat(r)
        elif op == "dyn":
            c = sv.calc_corr_dyn_pol()
            q, w, r = self.an.calc_dyn_pol(c)
            out = flat(c) + flat(w) + flat(r) + flat(self.an.calc_epsilon(r) / 1000)
        elif op == "dc":
            d, c = sv.calc_corr_dc_cond()
            e, r = self.an.calc_dc_cond(d, c)
            _, df = self.an.calc_diff_coeff(c)
            out = flat(d) + flat(c[:, :4]) + flat(e) + flat(r / 1000) + flat(df)
        elif op == "hall":
            c = sv.calc_hall_mu()
            e, r = self.an.calc_hall_cond(c)
            out = flat(c) + flat(e) + flat(r)
        elif op == "qe":
            out = flat(sv.calc_quasi_eigenstates())
        return out

    def run(self, ops):
        evs = []
        for o in ops:
            e = dict(out="ok", val=[], ns=0)
            try:
                if o["op"] == "dist":
                    e.update(self.dist(o))
                elif o["op"] == "coll":
                    e.update(self.coll(o))
                else:
                    e["val"] = getattr(self, self.cfg["kind"])(o)
            except Exception as x:
                e["out"] = type(x).__name__
                e["msg"] = str(x)[:200]
            if self.cfg["kind"] == "tbpm":
                e["ns"] = int(self.cf.generic["nr_random_samples"])
            evs.append(e)
        return evs


def main():
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    with open(sys.argv[1]) as f:
        job = json.load(f)
    evs = []
    if comm.Get_size() == job["cfg"]["p"]:
        evs = Prog(job["cfg"], True, job["cfg"]["p"]).run(job["ops"])
    res = dict(size=comm.Get_size(), rank=comm.Get_rank(), ev=evs)
    name = "%s.%d" % (sys.argv[2], comm.Get_rank())
    with open(name + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(name + ".tmp", name)


if __name__ == "__main__":
    main()
