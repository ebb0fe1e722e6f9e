"""Records constructions, misfits and fits of ParamFit objects."""
import numpy as np
import tbplas as tb
from enc import fx

S = 1000000
U = 10000


class Linear(tb.ParamFit):
    def __init__(self, o, ks, w):
        self.o = o
        self.mats = [np.array(m, dtype=float) for m in o["A"]]
        self.ref = np.array(o["ref"], dtype=float)
        super().__init__(ks, w)

    def calc_bands_ref(self):
        return self.ref

    def calc_bands_fit(self, params):
        return sum(p * m for p, m in zip(params, self.mats))


class Chain(Linear):
    """On-site energy and first and second neighbor hopping of a chain."""
    def calc_bands_fit(self, params):
        cell = tb.PrimitiveCell(np.eye(3), unit=tb.NM)
        cell.add_orbital((0, 0, 0), energy=params[0])
        for i, p in enumerate(params[1:]):
            cell.add_hopping((i + 1, 0, 0), 0, 0, p)
        return cell.calc_bands(self._k_points)[1]


def run_case(case):
    ev, f, w = [], None, None
    for o in case["ops"]:
        e = dict(o)
        try:
            if o["op"] == "new":
                ks = np.array([[k / 12, 0, 0] for k in o["ks"]], dtype=float)
                w = np.array(o["w"], dtype=float) * 0.5 if o["w"] else None
                keep = [ks.copy(), None if w is None else w.copy()]
                g = (Chain if o["chain"] else Linear)(o, ks, w)
                e["intact"] = bool(np.array_equal(ks, keep[0])
                                   and (w is None or np.array_equal(w, keep[1])))
                f = g
            elif o["op"] == "touch":
                if w is not None:
                    w[:] = np.arange(len(w)) + 3
            else:
                p = np.array(o["p0"], dtype=float)
                q = p.copy()
                ref = f.ref.copy()
                if o["op"] == "err":
                    e["p"] = o["p0"]
                    r = f.estimate_error(p)
                    e["err"] = [fx(x, S) for x in r] if np.ndim(r) == 1 else []
                else:
                    kw = dict(maxfev=1) if o["few"] else {}
                    if o["full"]:
                        kw["full_output"] = True
                    r = f.fit(list(p) if o["aslist"] else p, **kw)
                    e["p"] = [fx(x, U) for x in r] if np.ndim(r) == 1 else []
                e["intact"] = bool(np.array_equal(p, q) and np.array_equal(ref, f.ref))
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:160]
            e["intact"] = True
        ev.append(e)
        if o["op"] == "new" and f is None:
            break
    return dict(ev=ev)
