"""Lattice and k-point functions."""
import math
import numpy as np
import tbplas as tb
from enc import iv, fx, coin, omit
import mk

TP = 2 * math.pi


def rows(a, mul, tol=1e-6):
    return [[iv(x, mul, tol) for x in r] for r in np.asarray(a)]


def geo(det, rec, area, vol):
    return dict(rec=rows(rec, abs(det) / TP), vol=iv(vol),
                area2=[iv(area(d) ** 2) for d in "abc"])


def det3(m):
    return int(round(np.linalg.det(np.array(m, dtype=float))))


def call(o):
    op = o["op"]
    lat = np.array(o["lat"], dtype=float) if "lat" in o else None
    if op == "frac2cart":
        pts = np.array(o["pts"], dtype=float) / 48
        if o["form"] == "list":
            r = tb.frac2cart(o["lat"], pts.tolist(), origin=np.array(o["org"]))
        elif o["form"] == "default" and o["org"] == [0, 0, 0]:
            r = tb.frac2cart(lat, pts)
        else:
            r = tb.frac2cart(lat, pts, np.array(o["org"], dtype=float))
        return dict(res=rows(r, 48))
    if op == "cart2frac":
        if o["form"] == "list":
            r = tb.cart2frac(o["lat"], o["pts"], origin=np.array(o["org"]))
        elif o["form"] == "default" and o["org"] == [0, 0, 0]:
            r = tb.cart2frac(lat, np.array(o["pts"]))
        else:
            r = tb.cart2frac(lat, np.array(o["pts"], dtype=float),
                             np.array(o["org"], dtype=float))
        return dict(res=rows(r, abs(det3(lat))))
    if op == "geo":
        return geo(det3(lat), tb.gen_reciprocal_vectors(lat),
                   lambda d: tb.get_lattice_area(
                       lat, *(() if d == "c" and coin() else (d,))),
                   tb.get_lattice_volume(lat))
    if op == "area":
        tb.get_lattice_area(lat, o["dir"])
        return {}
    if op in ("geo_pc", "geo_sc"):
        # built in Angstrom: the results must be in nm
        pc = tb.PrimitiveCell(lat * 10, unit=tb.ANG)
        pc.add_orbital((0.1, 0.2, 0.3))
        pc.add_hopping((0, 0, 1) if o["dim"][2] > 2 else (1, 0, 0), 0, 0, 1.0)
        obj = pc
        L = np.array(o["lat"])
        if op == "geo_sc":
            obj = tb.SuperCell(pc, dim=tuple(o["dim"]), pbc=(True, True, True))
            L = L * np.array(o["dim"])[:, None]
        return geo(det3(L), obj.get_reciprocal_vectors(),
                   lambda d: obj.get_lattice_area(
                       *(() if d == "c" and coin() else (d,))),
                   obj.get_lattice_volume())
    if op == "kmesh":
        n = o["n"]
        k = tb.gen_kmesh(tuple(n))
        return dict(res=[[iv(r[d], n[d]) for d in range(3)] for r in k])
    if op == "kpath":
        hs = np.array(o["hs"], dtype=float) / 12
        num = o["num"]
        if o["form"] == "list":
            hs = hs.tolist()
        elif o["form"] == "array":
            num = np.array(num)
        else:
            num = tuple(num)
        k, idx = tb.gen_kpath(hs, num)
        return dict(res=rows(k, 720), idx=[int(x) for x in idx])
    if op == "kdist":
        k = np.array(o["pts"], dtype=float) / 12
        d = tb.gen_kdist(lat, k)
        st = np.diff(d)
        f = 12 * det3(lat) / TP
        return dict(step2=[iv((x * f) ** 2, 1, 1e-3) for x in st],
                    first=fx(d[0]), mono=bool(np.all(st >= 0)))
    if op == "rotate":
        pts = o["pts"]
        if o["form"] == "int":
            pts = np.array(pts)
        elif o["form"] == "float":
            pts = np.array(pts, dtype=float)
        kw = {}
        if o["ctr"] != [0, 0, 0] or coin():
            kw["center"] = np.array(o["ctr"], dtype=float)
        if o["ax"] != "z" or coin():
            kw["axis"] = o["ax"]
        if o["m"] or coin():
            kw["angle"] = o["m"] * TP / 720
        r = tb.rotate_coord(pts, **kw)
        return dict(res=[[fx(x, 1000000) for x in v] for v in r])
    if op == "latvec":
        kw = dict(a=o["a"], b=o["b"], c=o["c"], alpha=o["al"], beta=o["be"],
                  gamma=o["ga"])
        v = tb.gen_lattice_vectors(**omit(kw, a=1, b=1, c=1, alpha=90, beta=90,
                                          gamma=90))
        return dict(v=[[fx(x, 1000000) for x in r] for r in v],
                    met=[[fx(x, 1000000) for x in r] for r in v @ v.T])
    raise RuntimeError(op)


def run_case(case):
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            e.update(call(o))
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:120]
        ev.append(e)
    return dict(ev=ev)
