"""Transformations of primitive cells."""
import math
import numpy as np
import tbplas as tb
from enc import iv, civ, fx, coin, omit
import mk

S6 = 1000000


def cell(pc):
    pos = pc.orb_pos_nm if pc.num_orb else []
    return dict(lat=[[iv(x) for x in r] for r in pc.lat_vec],
                org=[iv(x) for x in pc.origin],
                orb=[[iv(x, 48) for x in pos[i]] + [iv(o.energy), o.label]
                     for i, o in enumerate(pc.orbitals)],
                hop=hops(pc))


def hops(pc):
    return [[int(x) for x in rn] + [int(p[0]), int(p[1])] + civ(v)
            for rn, d in pc.hoppings.items() for p, v in d.items()]


def call(pcs, descr, o):
    op = o["op"]
    if op == "chain":
        src = pcs[o["p"] - 1]
        if o["raw"]:
            if o["kind"] == "extend":
                q = tb.extend_prim_cell(src, tuple(o["raw"]))
            else:
                q = tb.reshape_prim_cell(src, np.array(o["raw"], dtype=float))
        else:
            q = src
            kw = {} if o["delta"] == 0 else dict(delta=o["delta"] / 10000)
            for kind, m in zip(o["kinds"], o["ms"]):
                m = np.array(m, dtype=float)
                if kind == "extend":
                    d = [int(m[i, i]) for i in range(3)]
                    if d == [1, 1, 1] and coin():
                        q = tb.extend_prim_cell(q)
                        continue
                    q = tb.extend_prim_cell(
                        q, tuple(d[:2]) if d[2] == 1 and o["short"] else tuple(d))
                elif kind == "reshape":
                    q = tb.reshape_prim_cell(q, m, **kw)
                else:
                    q = tb.make_hetero_layer(q, np.matmul(m, q.lat_vec), **kw)
        return dict(q=cell(q), ext=iv(q.extended), after=cell(src))
    if op == "spiral":
        pc = mk.prim_cell(descr[o["p"] - 1])
        kw = omit(dict(angle=o["m"] * 2 * math.pi / 720, shift=o["sh"] / 12),
                  angle=0, shift=0)
        if any(o["ctr"]) or coin():
            kw["center"] = np.array(o["ctr"], dtype=float)
        tb.spiral_prim_cell(pc, **kw)
        return dict(lat6=[[fx(x, S6) for x in r] for r in pc.lat_vec],
                    org6=[fx(x, S6) for x in pc.origin],
                    pos12=[[fx(x * 12, S6) for x in r] for r in pc.orb_pos_nm],
                    eng=[iv(b.energy) for b in pc.orbitals], hop=hops(pc))
    if op == "merge":
        args = [pcs[p - 1] for p in o["pcs"]]
        if o["lock"]:        # in use by a supercell
            tb.SuperCell(pcs[o["lock"] - 1], dim=(3, 3, 3),
                         pbc=(True, True, True))
        for h in o["ihs"]:
            ih = tb.PCInterHopping(pcs[h["bra"] - 1], pcs[h["ket"] - 1])
            for t in h["hop"]:
                ih.add_hopping(tuple(t[:3]), t[3], t[4], complex(t[5], t[6]))
            args.append(ih)
        if o["mix"]:
            args = args[len(o["pcs"]):] + args[:len(o["pcs"])]
        if o["alien"]:
            args.append("alien")
        q = tb.merge_prim_cell(*args)
        return dict(q=cell(q), after=[cell(pcs[p - 1]) for p in o["pcs"]])
    raise RuntimeError(op)


def run_case(case):
    descr = case["cfg"]["pcs"]
    pcs = [mk.prim_cell(d) for d in descr]
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            e.update(call(pcs, descr, o))
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:120]
        ev.append(e)
    return dict(ev=ev)
