"""Replays histories of model-building calls into tbplas."""
import numpy as np
import tbplas as tb
from tbplas.builder.base import HopDict
from enc import iv, civ, BAD, coin, omit

NONE = 99999
OPS_READ = {"read_pc", "ham_pc", "read_sc", "read_ih", "read_sp"}


def pm_func(pm):
    if pm == 0:
        return None
    if pm == 1:
        def f(pos):
            pos[0::2, 2] += 5.0 / 48
        return f

    def g(pos):
        pos[:, 0] += 2 * pos[:, 1]
    return g


def locked(obj):
    try:
        obj.check_lock()
        return False
    except tb.builder.exceptions.LockError:
        return True


def tup(v):
    return tuple(v)


class World:
    def __init__(self):
        self.pc, self.sc, self.ih, self.sp = [], [], [], []

    # ---- calls -----------------------------------------------------------
    def call(self, o):
        op = o["op"]
        alt = coin()
        if op == "new_pc":
            lat = np.array(o["lat"], dtype=float)
            org = np.array(o["org"], dtype=float)
            kw = {} if not org.any() and coin() \
                else dict(origin=org if alt else org * 10)
            if alt:
                kw["unit"] = tb.NM
            elif coin():
                kw["unit"] = tb.ANG
            self.pc.append(tb.PrimitiveCell(lat if alt else lat * 10, **kw))
            return None
        if "p" in o and op not in ("new_sc",):
            pc = self.pc[o["p"] - 1]
        if op == "add_orbital":
            pos = tup(x / 48 for x in o["pos"])
            if len(pos) in (2, 3) and o.get("cart"):
                full = np.array(pos + (0.0,) * (3 - len(pos)))
                c = np.matmul(full, pc.lat_vec) + pc.origin
                kw = omit(dict(energy=o["e"]), energy=0)
                if alt:
                    pc.add_orbital_cart(c, unit=tb.NM, label=o["lab"], **kw)
                else:
                    pc.add_orbital_cart(tup(c * 10), label=o["lab"], **kw)
            else:
                pc.add_orbital(pos, label=o["lab"],
                               **omit(dict(energy=o["e"]), energy=0))
        elif op == "set_orbital":
            pos = None if o["pos"] == [] else tup(x / 48 for x in o["pos"])
            kw = omit(dict(energy=None if o["e"] == NONE else o["e"],
                           label=None if o["lab"] == "" else o["lab"]),
                      energy=None, label=None)
            if pos is None:
                if coin():
                    kw["position"] = None
                (pc.set_orbital if alt else pc.set_orbital_cart)(o["i"], **kw)
            elif alt or len(pos) not in (2, 3):
                (pc.set_orbital if coin() else pc.set_orbital_cart
                 if len(pos) not in (2, 3) else pc.set_orbital)(
                     o["i"], position=pos, **kw)
            else:
                full = np.array(pos + (0.0,) * (3 - len(pos)))
                c = np.matmul(full, pc.lat_vec) + pc.origin
                if coin():
                    pc.set_orbital_cart(o["i"], c, unit=tb.NM, **kw)
                else:
                    pc.set_orbital_cart(o["i"], tup(c * 10), **kw)
        elif op == "get_orbital":
            b = pc.get_orbital(o["i"])
            return [iv(x, 48) for x in b.position] + [iv(b.energy)]
        elif op == "remove_orbitals":
            if len(o["ix"]) == 1 and alt:
                pc.remove_orbital(o["ix"][0])
            else:
                pc.remove_orbitals(o["ix"] if alt else np.array(o["ix"],
                                                                dtype=int))
        elif op == "add_hopping":
            pc.add_hopping(tup(o["rn"]), o["i"], o["j"], complex(*o["v"]))
        elif op == "add_hopping_dict":
            n = max([pc.num_orb] + [max(t["i"], t["j"]) + 1 for t in o["terms"]])
            hd = HopDict(n)
            for t in o["terms"]:
                rn = tup(t["rn"])
                m = hd[rn].copy()
                m[t["i"], t["j"]] = complex(*t["v"])
                hd[rn] = m
            pc.add_hopping_dict(hd)
        elif op == "get_hopping":
            return civ(pc.get_hopping(tup(o["rn"]), o["i"], o["j"]))
        elif op == "remove_hopping":
            pc.remove_hopping(tup(o["rn"]), o["i"], o["j"])
        elif op == "trim_pc":
            pc.trim()
        elif op == "apply_pbc":
            pc.apply_pbc(**omit(dict(pbc=tup(o["pbc"])), pbc=(True,) * 3))
        elif op == "reset_lattice":
            u = 1 if alt else 10
            kw = omit(dict(fix_orb=o["fix"]), fix_orb=True)
            if alt:
                kw["unit"] = tb.NM
            if not (np.allclose(pc.lat_vec, o["lat"]) and coin()):
                kw["lat_vec"] = np.array(o["lat"], dtype=float) * u
            if not (np.allclose(pc.origin, o["org"]) and coin()):
                kw["origin"] = np.array(o["org"], dtype=float) * u
            pc.reset_lattice(**kw)
        elif op == "new_sc":
            kw = {}
            if o["vac"] != [] or alt:
                kw["vacancies"] = [tup(v) for v in o["vac"]]
            self.sc.append(tb.SuperCell(
                self.pc[o["p"] - 1], dim=tup(o["dim"]),
                **omit(dict(pbc=tup(o["pbc"]), orb_pos_modifier=pm_func(o["pm"])),
                       pbc=(False,) * 3, orb_pos_modifier=None), **kw))
        elif op == "add_vac":
            sc = self.sc[o["s"] - 1]
            if len(o["vac"]) == 1 and alt:
                sc.add_vacancy(tup(o["vac"][0]))
            else:
                sc.add_vacancies([tup(v) for v in o["vac"]])
        elif op == "set_vac":
            sc = self.sc[o["s"] - 1]
            if o["vac"] == [] and alt:
                sc.set_vacancies()
            else:
                sc.set_vacancies([tup(v) for v in o["vac"]])
        elif op == "sc_add_hop":
            self.sc[o["s"] - 1].add_hopping(tup(o["rn"]), o["i"], o["j"],
                                            complex(*o["v"]))
        elif op == "set_posmod":
            self.sc[o["s"] - 1].set_orb_pos_modifier(
                **omit(dict(orb_pos_modifier=pm_func(o["pm"])),
                       orb_pos_modifier=None))
        elif op == "trim_sc":
            self.sc[o["s"] - 1].trim()
        elif op == "sc2pc":
            sc = self.sc[o["s"] - 1]
            if alt and min(o["ids"]) >= 0:
                return [[int(x) for x in sc.orb_id_sc2pc(i)] for i in o["ids"]]
            r = sc.orb_id_sc2pc_array(np.array(o["ids"]))
            return [[int(x) for x in row] for row in r]
        elif op == "pc2sc":
            sc = self.sc[o["s"] - 1]
            if alt or any(len(v) != 4 for v in o["ids"]):
                return [int(sc.orb_id_pc2sc(tup(v))) for v in o["ids"]]
            r = sc.orb_id_pc2sc_array(np.array(o["ids"], dtype=np.int32))
            return [int(x) for x in r]
        elif op == "new_ih":
            self.ih.append(tb.SCInterHopping(self.sc[o["bra"] - 1],
                                             self.sc[o["ket"] - 1]))
        elif op == "ih_add":
            self.ih[o["h"] - 1].add_hopping(tup(o["rn"]), o["i"], o["j"],
                                            complex(*o["v"]))
        elif op == "ih_remove":
            r = self.ih[o["h"] - 1].remove_hopping(tup(o["rn"]), o["i"], o["j"])
            return [1 if r else 0]
        elif op == "ih_remove_rn":
            self.ih[o["h"] - 1].remove_rn(tup(o["rn"]))
        elif op == "ih_remove_orb":
            h = self.ih[o["h"] - 1]
            if len(o["ix"]) == 1 and alt:
                h.remove_orbital(o["ix"][0])
            else:
                h.remove_orbitals(o["ix"])
        elif op == "ih_get":
            v, found = self.ih[o["h"] - 1].get_hopping(tup(o["rn"]), o["i"],
                                                       o["j"])
            return [1] + civ(v) if found else [0, 0, 0]
        elif op == "new_sp":
            args = [self.sc[s - 1] for s in o["sc"]] \
                + [self.ih[h - 1] for h in o["ih"]]
            if o["alien"]:
                args.append("alien")
            self.sp.append(tb.Sample(*args))
        elif op == "init_eng":
            self.sp[o["q"] - 1].init_orb_eng(force_init=o["force"])
        elif op == "init_pos":
            self.sp[o["q"] - 1].init_orb_pos(force_init=o["force"])
        elif op == "init_hop":
            self.sp[o["q"] - 1].init_hop(force_init=o["force"])
        elif op == "reset_sp":
            self.sp[o["q"] - 1].reset_array()
        elif op == "rescale":
            self.sp[o["q"] - 1].rescale_ham(float(o["f"]))
        elif op == "unlock":
            getattr(self, o["kind"])[o["n"] - 1].unlock()
        elif op == "update":
            getattr(self, o["kind"])[o["n"] - 1].update()
        elif op in OPS_READ:
            return self.read(o)
        else:
            raise RuntimeError("unknown op " + op)
        return None

    # ---- reads -----------------------------------------------------------
    def read(self, o):
        op = o["op"]
        if op == "read_pc":
            pc = self.pc[o["p"] - 1]
            hi, he = pc.hop_ind, pc.hop_eng
            return dict(a=dict(
                pos=[[iv(x, 48) for x in r] for r in pc.orb_pos],
                eng=[iv(x) for x in pc.orb_eng],
                hop=[[int(x) for x in hi[n]] + civ(he[n])
                     for n in range(len(he))],
                dr=[[iv(x, 48) for x in r] for r in pc.dr],
                drnm=nm(pc, "dr") if len(he) else [],
                nm=nm(pc, "orb_pos")
                if pc.num_orb else [],
                num=pc.num_orb))
        if op == "ham_pc":
            pc = self.pc[o["p"] - 1]
            k = np.array(o["k2"], dtype=float) / 2
            pc.sync_array()
            h = np.zeros((pc.num_orb, pc.num_orb), dtype=np.complex128)
            pc.set_ham_dense(k, h, convention=2)
            c = pc.set_ham_csr(k, convention=2).toarray()
            return dict(ham=[[civ(z) for z in r] for r in h],
                        csr=[[civ(z) for z in r] for r in c])
        if op == "read_sc":
            sc = self.sc[o["s"] - 1]
            order = o.get("order", 0)
            res = {}

            def hop():
                i, j, v, d = sc.get_hop()
                res["hop"] = hoplist(i, j, v, d)

            def eng():
                res["eng"] = [iv(x) for x in sc.get_orb_eng()]

            def pos():
                res["pos"] = [[iv(x, 48) for x in r] for r in sc.get_orb_pos()]

            def ids():
                a = sc.orb_id_sc2pc_array(np.arange(sc.num_orb_sc))
                res["ids"] = [[int(x) for x in r] for r in a]
                res["back"] = [int(x) for x in sc.orb_id_pc2sc_array(a)]
            fs = [hop, eng, pos, ids]
            for f in fs[order % 4:] + fs[:order % 4]:
                f()
            res["lat"] = [[iv(x) for x in r] for r in sc.sc_lat_vec]
            return dict(a=res)
        if op == "read_ih":
            i, j, v, d = self.ih[o["h"] - 1].get_hop()
            return dict(a=dict(hop=hoplist(i, j, v, d)))
        sp = self.sp[o["q"] - 1]
        if coin() and sp.num_hop != len(sp.hop_i):
            return dict(a=dict(eng=[BAD], pos=[], hop=[]))
        sp.init_orb_eng()
        sp.init_orb_pos()
        sp.init_hop()
        return dict(a=dict(
            eng=[iv(x, 16) for x in sp.orb_eng],
            pos=[[iv(x, 48) for x in r] for r in sp.orb_pos],
            hop=hoplist(sp.hop_i, sp.hop_j, sp.hop_v, sp.dr, 16)))

    # ---- non-perturbing observation --------------------------------------
    def observe(self):
        return dict(
            lkp=[locked(x) for x in self.pc], lks=[locked(x) for x in self.sc],
            lki=[locked(x) for x in self.ih],
            orbs=[[[iv(x, 48) for x in b.position]
                   + [iv(b.energy), str(b.label)] for b in pc.orbitals]
                  for pc in self.pc],
            hops=[flat(pc.hoppings) for pc in self.pc],
            nhop=[pc.num_hop for pc in self.pc],
            nsc=[[int(sc.num_orb_sc), int(sc.num_vac)] for sc in self.sc],
            ihops=[flat(h.hoppings) for h in self.ih])


def nm(pc, what):
    """Cartesian coordinates in nm, from the values in nm or Angstrom."""
    u = "_nm" if coin() else "_ang"
    return [[iv(x, 48 if u == "_nm" else 4.8) for x in r]
            for r in getattr(pc, what + u)]


def flat(hoppings):
    return [[int(x) for x in rn] + [int(p[0]), int(p[1])] + civ(v)
            for rn, d in hoppings.items() for p, v in d.items()]


def hoplist(i, j, v, d, mul=1):
    out = []
    if not (len(i) == len(j) == len(v) == len(d)):
        return [[BAD] * 7]
    for n in range(len(i)):
        out.append([iv(i[n]), iv(j[n])] + civ(v[n], mul)
                   + [iv(x, 48) for x in d[n]])
    return out


def run_case(case):
    w = World()
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            r = w.call(o)
            e["out"] = "ok"
            if isinstance(r, dict):
                e.update(r)
            else:
                e["val"] = [] if r is None else r
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:120]
        e.update(w.observe())
        ev.append(e)
    return dict(ev=ev)
