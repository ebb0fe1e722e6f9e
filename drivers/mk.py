"""Builds tbplas objects from model descriptions (see checks/models.py)."""
import numpy as np
import tbplas as tb
from enc import coin, omit


def pm_func(pm):
    if pm == 0:
        return None
    if pm == 1:
        def f(pos):
            pos[0::2, 2] += 5.0 / 48
        return f

    def g(pos):
        pos[:, 0] += 2 * pos[:, 1]
    return g


def prim_cell(d, cls=None):
    pc = tb.PrimitiveCell(np.array(d["lat"], dtype=float),
                          np.array(d["org"], dtype=float), unit=tb.NM)
    for o in d["orb"]:
        pc.add_orbital(tuple(x / 48 for x in o["p"]), energy=o["e"],
                       label=o.get("lab", "x"))
    for t in d["hop"]:
        pc.add_hopping(tuple(t[:3]), t[3], t[4], complex(t[5], t[6]))
    return pc


def overlap(pc, d):
    ov = tb.Overlap(pc)
    for i, o in enumerate(d["orb"]):
        if o["e"] != 1:
            ov.set_onsite(i, o["e"])
        elif coin():
            ov.set_onsite(i)
    for t in d["hop"]:
        ov.add_offsite(tuple(t[:3]), t[3], t[4], complex(t[5], t[6]))
    return ov


class Model:
    def __init__(self, d):
        self.pcs = [prim_cell(p) for p in d["pcs"]]
        self.scs = []
        for s in d.get("scs", []):
            kw = {}
            if s["vac"]:
                kw["vacancies"] = [tuple(v) for v in s["vac"]]
            sc = tb.SuperCell(self.pcs[s["pc"] - 1], dim=tuple(s["dim"]),
                              orb_pos_modifier=pm_func(s["pm"]), **kw,
                              **omit(dict(pbc=tuple(s["pbc"])),
                                     pbc=(False, False, False)))
            for t in s["mod"]:
                sc.add_hopping(tuple(t[:3]), t[3], t[4], complex(t[5], t[6]))
            self.scs.append(sc)
        self.ihs = []
        for h in d.get("ihs", []):
            ih = tb.SCInterHopping(self.scs[h["bra"] - 1],
                                   self.scs[h["ket"] - 1])
            for t in h["hop"]:
                ih.add_hopping(tuple(t[:3]), t[3], t[4], complex(t[5], t[6]))
            self.ihs.append(ih)
        self.d = d

    def sample(self):
        sp = self.d["sp"]
        return tb.Sample(*([self.scs[s - 1] for s in sp["sc"]]
                           + [self.ihs[h - 1] for h in sp["ih"]]))
