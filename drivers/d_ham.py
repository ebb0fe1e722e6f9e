"""Records Hamiltonians and sample arrays."""
import os
import shutil
import numpy as np
import tbplas as tb
from enc import mat, cx, iv, fx, coin, omit
import mk

S = 1000000


def arr(sp):
    sp.init_orb_eng()
    sp.init_orb_pos()
    sp.init_hop()
    n = len(sp.hop_i)
    ok = len(sp.hop_j) == n and len(sp.hop_v) == n and len(sp.dr) == n
    return dict(
        eng=[fx(x, S) for x in sp.orb_eng],
        pos=[[iv(x, 48) for x in r] for r in sp.orb_pos],
        hop=[[iv(sp.hop_i[k]), iv(sp.hop_j[k])] + [iv(x, 48) for x in sp.dr[k]]
             + cx(sp.hop_v[k], S) for k in range(n)] if ok else [],
        f=iv(sp.rescale))


def kpt(o):
    return np.array(o["kn"], dtype=float) / o["kd"]


class Mixed(Exception):
    """One of two methods raised, the other did not."""


def two(obj, n, k, conv, dense="set_ham_dense", csr="set_ham_csr"):
    h = np.zeros((n, n), dtype=np.complex128)
    kw = omit(dict(convention=conv), convention=1)
    c, errs = h, []
    try:
        getattr(obj, dense)(k, h, **kw)
    except Exception as err:
        errs.append(err)
    try:
        c = getattr(obj, csr)(k, **kw).toarray()
    except Exception as err:
        errs.append(err)
    if errs:
        raise errs[0] if len(errs) == 2 else Mixed(str(errs[0]))
    return dict(dense=mat(h, S), csr=mat(c, S))


def call(m, sp, o, ov):
    op = o["op"]
    if op in ("ham_pc", "ham_ov"):
        if op == "ham_pc":
            pc = m.pcs[o["p"] - 1]
            pc.sync_array()
            return two(pc, pc.num_orb, kpt(o), o["conv"])
        ov.sync_array()
        return two(ov, ov.num_orb, kpt(o), o["conv"], "set_overlap_dense",
                   "set_overlap_csr")
    if op == "ham_sp":
        sp.init_orb_eng()
        sp.init_hop()
        return two(sp, sp.num_orb, kpt(o), o["conv"])
    if op == "arr":
        return arr(sp)
    if op == "rescale":
        if o["f"] == 0:
            sp.rescale_ham()
        else:
            sp.rescale_ham(float(o["f"]))
    elif op == "mag":
        sp.set_magnetic_field(4135.666734 * 0.4 * o["b"],
                              **omit(dict(gauge=o["g"]), gauge=0))
    elif op == "set_k":
        sp.set_k_point(kpt(o))
    elif op == "reset":
        sp.reset_array()
    elif op == "load":
        d = ("arr_dump",) if coin() else ("sample",)
        shutil.rmtree(d[0], ignore_errors=True)
        sp.init_orb_eng()
        sp.init_orb_pos()
        sp.init_hop()
        sp.save_array(*(() if d[0] == "sample" and coin() else d))
        other = m.sample()
        if o.get("g"):       # the other sample has a history of its own
            other.rescale_ham(float(o["g"]))
        other.load_array(*(() if d[0] == "sample" and coin() else d))
        shutil.rmtree(d[0], ignore_errors=True)
        return arr(other)
    elif op == "csr":
        h = sp.build_ham_csr().toarray()
        dx, dy = sp.build_dxy_csr()
        return dict(ham=mat(h, S),
                    dx=[[iv(x, 48) for x in r] for r in dx.toarray()],
                    dy=[[iv(x, 48) for x in r] for r in dy.toarray()])
    elif op == "dxy":
        kw = omit(dict(algo=o["algo"], sort_col=o["sort"]), algo="fast",
                  sort_col=False)
        if o["cut8"] >= 0:
            kw["orb_eng_cutoff"] = o["cut8"] / 8
        elif coin():
            kw["orb_eng_cutoff"] = 1.0e-5
        ptr, ind, hop, dx, dy = sp.build_ham_dxy(**kw)
        return dict(indptr=[int(x) for x in ptr], indices=[int(x) for x in ind],
                    hop=[cx(x, S) for x in hop], dx=[iv(x, 48) for x in dx],
                    dy=[iv(x, 48) for x in dy])
    return {}


def generic(o):
    """Random real-valued model: only agreement clauses apply."""
    rng = np.random.default_rng(o["seed"])
    n = int(rng.integers(1, 4)) if rng.integers(0, 3) else int(rng.integers(4, 9))
    lat = rng.uniform(-1, 1, (3, 3)) + 3 * np.eye(3)
    pc = tb.PrimitiveCell(lat, rng.uniform(-1, 1, 3), unit=tb.ANG)
    for _ in range(n):
        pc.add_orbital(tuple(rng.uniform(-1, 2, 3)), energy=rng.uniform(-3, 3))
    for _ in range(int(rng.integers(1, 9)) * (1 + n // 3)):
        rn = tuple(int(x) for x in rng.integers(-1, 2, 3))
        i, j = (int(x) for x in rng.integers(0, n, 2))
        if rn == (0, 0, 0) and i == j:
            rn = (0, 0, 1)
        pc.add_hopping(rn, i, j, complex(*rng.uniform(-3, 3, 2)))
    k = rng.uniform(-2, 2, 3)
    pc.sync_array()
    if o["what"] == "pc":
        return two(pc, n, k, int(rng.integers(1, 3)))
    sp = tb.Sample(tb.SuperCell(pc, dim=(3, 3, 3),
                                pbc=tuple(bool(x) for x in rng.integers(0, 2, 3))))
    if rng.integers(0, 2):
        sp.set_magnetic_field(float(rng.uniform(-200, 200)),
                              gauge=int(rng.integers(0, 3)))
    if rng.integers(0, 2):
        sp.rescale_ham()
    sp.init_orb_eng()
    sp.init_hop()
    return two(sp, sp.num_orb, k, 1)


def run_case(case):
    d = case["cfg"]
    m = mk.Model(d)
    ov = mk.overlap(m.pcs[0], d["ov"]) if "ov" in d else None
    sp = m.sample() if d["sp"]["sc"] else None
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            e.update(generic(o) if o["op"] == "generic" else call(m, sp, o, ov))
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:120]
        ev.append(e)
    return dict(ev=ev)
