"""Records what is printed, drawn and written to cube files."""
import contextlib
import io
import os
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402
import tbplas as tb  # noqa: E402
from tbplas.base import BOHR2NM  # noqa: E402
from enc import iv, fx, mat, cx  # noqa: E402
import mk  # noqa: E402

warnings.filterwarnings("ignore")
S = 1000000
HOP = "#12ab34"
MOD = "#ab1234"


def same(c, ref):
    return np.allclose(np.asarray(c, dtype=float).ravel()[:3], to_rgba(ref)[:3],
                       atol=1e-6)


class Keep:
    """Keeps the figures of a plotting call open for inspection."""
    def __enter__(self):
        plt.close("all")
        self.saved = plt.close, plt.show
        plt.close = lambda *a, **k: None
        plt.show = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        plt.close, plt.show = self.saved
        return False


def arrow_ends(p):
    return [p._x, p._y, p._x + p._dx, p._y + p._dy]


def axes_content(axes):
    """Points [x, y, value], segments of terms, grid, lattice arrows in 1/48."""
    dots, hops, arrows, grid, lat = [], [], [], [], []
    for col in axes.collections:
        name = type(col).__name__
        if name == "PathCollection":
            off = np.asarray(col.get_offsets())
            val = col.get_array()
            for i, xy in enumerate(off):
                dots.append([iv(xy[0], 48), iv(xy[1], 48),
                             iv(val[i]) if val is not None else 0])
        elif name == "LineCollection":
            target = hops if same(col.get_color()[0], HOP) else grid
            for seg in col.get_segments():
                target.append([iv(v, 48) for xy in seg for v in xy])
    for line in axes.lines:
        xy = np.asarray(line.get_xydata())
        target = hops if same(to_rgba(line.get_color()), HOP) else grid
        for a, b in zip(xy[:-1], xy[1:]):
            target.append([iv(v, 48) for v in (*a, *b)])
    for p in axes.patches:
        if hasattr(p, "_dx"):
            target = arrows if same(p.get_edgecolor(), HOP) else lat
            target.append([iv(v, 48) for v in arrow_ends(p)])
    return dict(dots=dots, hops=hops, arr=arrows, grid=grid, lat=lat)


def half_pc(pc):
    return [[iv(x) for x in r] + [iv(v.real), iv(v.imag)]
            for r, v in zip(pc.hop_ind, pc.hop_eng)]


def half_list(hop):
    hop_i, hop_j, hop_v, dr = hop
    return [[iv(hop_i[k]), iv(hop_j[k]), iv(hop_v[k].real), iv(hop_v[k].imag)]
            + [iv(x, 48) for x in dr[k]] for k in range(len(hop_i))]


def style(o, color=False):
    kw = dict(with_conj=o["conj"], hop_as_arrows=o["arrows"], with_orbitals=o["orbs"],
              with_cells=o["cells"], hop_eng_cutoff=o["cut2"] / 2, hop_color=HOP,
              view=o["view"])
    for k in o["omit"]:
        del kw[k]
    if color and o["col"]:
        kw["orb_color"] = lambda x: list(range(len(x)))
    return kw


def captured(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f()
    return buf.getvalue()


def hk(pc, o):
    text = captured(lambda: pc.print_hk(convention=o["conv"])) if o["conv"] \
        else captured(pc.print_hk)
    body = "\n".join(t for t in text.split("\n") if not t.startswith("with "))
    n = pc.num_orb
    k = np.array(o["kn"], dtype=float) / o["kd"]
    h = np.zeros((n, n), dtype=complex)
    exec(body, dict(ham=h, ka=k[0], kb=k[1], kc=k[2], __builtins__={},
                    exp_i=lambda x: np.exp(2j * np.pi * x)))
    return dict(ham=mat(h, S))


def listing(pc):
    lines = captured(pc.print).split("\n")
    sect, res = None, dict(org=[], lat=[], orb=[], hop=[])
    for t in lines:
        if not t.strip():
            continue
        head = {"Lattice origin": "org", "Lattice vectors": "lat", "Orbitals": "orb",
                "Hopping terms": "hop"}
        key = [v for h, v in head.items() if t.startswith(h)]
        if key:
            sect = key[0]
        elif sect == "hop":
            rn, rest = t.strip()[1:].split(")", 1)
            pair, val = rest.strip()[1:].split(")", 1)
            v = complex(val.strip())
            res["hop"].append([int(x) for x in rn.split(",")]
                              + [int(x) for x in pair.split(",")]
                              + [iv(v.real), iv(v.imag)])
        else:
            # columns of ten characters
            num = [float(t[i:i + 10]) for i in range(0, len(t.rstrip()), 10)]
            res[sect].append([fx(x, 100000) for x in num])
    return res


def visual(m, sp, o):
    vis = tb.Visualizer()
    kind = o["kind"]
    fig = dict(fig_size=(2, 2))
    if kind == "bands":
        x = np.array(o["x"], dtype=float)
        y = np.array(o["y"], dtype=float)
        vis.plot_bands(x, y, np.array(o["idx"]), o["lab"], color=HOP, **fig)
        ax = plt.gcf().axes[0]
        curves = [ln for ln in ax.lines if same(to_rgba(ln.get_color()), HOP)]
        marks = [ln for ln in ax.lines if not same(to_rgba(ln.get_color()), HOP)]
        return dict(curves=[[[iv(a), iv(b)] for a, b in zip(*ln.get_data())]
                            for ln in curves],
                    marks=[iv(ln.get_xdata()[0]) for ln in marks],
                    ticks=[iv(t) for t in ax.get_xticks()],
                    labs=[t.get_text() for t in ax.get_xticklabels()],
                    xlim=[iv(t) for t in ax.get_xlim()])
    if kind in ("xy", "dos"):
        x, y = (np.array(o[c], dtype=float) for c in "xy")
        kw = dict(fig)
        if o["lim"]:
            kw.update(x_lim=tuple(o["lim"][:2]), y_lim=tuple(o["lim"][2:]))
        (vis.plot_xy if kind == "xy" else vis.plot_dos)(x, y, **kw)
        ax = plt.gcf().axes[0]
        return dict(curves=[[[iv(a), iv(b)] for a, b in zip(*ln.get_data())]
                            for ln in ax.lines],
                    rlim=[iv(t) for t in list(ax.get_xlim()) + list(ax.get_ylim())]
                    if o["lim"] else [])
    if kind == "phases":
        x, y = (np.array(o[c], dtype=float) for c in "xy")
        vis.plot_phases(x, y, scatter=o["scatter"], polar=o["polar"], **fig)
        ax = plt.gcf().axes[0]
        if o["scatter"]:
            curves = [[[iv(a), iv(b)] for a, b in np.asarray(c.get_offsets())]
                      for c in ax.collections]
        else:
            curves = [[[iv(a), iv(b)] for a, b in zip(*ln.get_data())]
                      for ln in ax.lines]
        return dict(curves=curves)
    model = None
    if o["model"]:
        model = m.pcs[0] if o["who"] == "pc" else sp
    kw = dict(model_style=dict(color=HOP), **fig)
    if o["colorbar"]:
        kw["with_colorbar"] = True
    if kind == "vector":
        x, y, u, v = (np.array(o[c], dtype=float) for c in "xyuv")
        vis.plot_vector(x, y, u, v, model=model, **kw)
        ax = plt.gcf().axes[0]
        q = [c for c in ax.collections if type(c).__name__ == "Quiver"][0]
        segs = axes_content(ax)["hops"]
        return dict(hops=segs, half=half_of(model),
                    arr=[[iv(q.X[i]), iv(q.Y[i]), iv(q.U[i]), iv(q.V[i])]
                         for i in range(len(q.X))])
    if kind == "wfc":
        model = m.pcs[0] if o["who"] == "pc" else sp
        n = model.num_orb
        z = np.array([o["z"][i % len(o["z"])] for i in range(n)], dtype=float)
        vis.plot_wfc(model, z, with_model=o["model"], scatter=True, **kw)
        ax = plt.gcf().axes[0]
        c = axes_content(ax)
        return dict(hops=c["hops"], dots=c["dots"],
                    half=half_of(model if o["model"] else None))
    x, y, z = (np.array(o[c], dtype=float) for c in "xyz")
    if kind == "scatter":
        vis.plot_scalar(x, y, z, scatter=True, model=model, **kw)
        ax = plt.gcf().axes[0]
        c = axes_content(ax)
        return dict(hops=c["hops"], half=half_of(model),
                    dots=[[d[0] // 48, d[1] // 48, d[2]] for d in c["dots"]])
    vis.plot_scalar(x, y, z, model=model, num_grid=tuple(o["grid"]), **kw)
    ax = plt.gcf().axes[0]
    img = ax.images[0]
    return dict(hops=axes_content(ax)["hops"], half=half_of(model),
                ext=[iv(t) for t in img.get_extent()], lower=img.origin == "lower",
                data=[[fx(t, S) for t in row]
                      for row in np.ma.filled(img.get_array(), np.nan)])


def half_of(model):
    if model is None:
        return []
    if isinstance(model, tb.PrimitiveCell):
        return half_pc(model)
    return half_list((model.hop_i, model.hop_j, model.hop_v, model.dr))


def cube(o):
    d = o["cell"]
    pc = tb.PrimitiveCell(np.array(d["lat"], dtype=float),
                          np.array(d["org"], dtype=float), unit=BOHR2NM)
    for orb in d["orb"]:
        pc.add_orbital(tuple(x / 48 for x in orb["p"]), energy=0.0)
    if len(d["orb"]) > 1:
        pc.add_hopping((0, 0, 0), 0, 1, 1.0)
    else:
        pc.add_hopping((1, 0, 0), 0, 0, 1.0)
    model = pc
    if o["dim"]:
        model = tb.Sample(tb.SuperCell(pc, dim=tuple(o["dim"]), pbc=(False,) * 3))
    qn = np.array(o["qn"], dtype=int)
    wfc = np.array([complex(*w) for w in o["wfc"]])
    name = f"wfc_{os.getpid()}.cube"
    kw = {}
    if o["conv"]:
        kw["convention"] = o["conv"]
    if o["kd"]:
        kw["k_point"] = np.array(o["kn"], dtype=float) / o["kd"]
    if o["rnmax"]:
        kw["rn_max"] = np.array(o["rnmax"])
    if o["org6"]:
        kw["cube_origin"] = np.array(o["org6"], dtype=float) / S * BOHR2NM
    if o["size6"]:
        kw["cube_size"] = np.array(o["size6"], dtype=float) / S * BOHR2NM
    if o["kind"] != "real" or o["named"]:
        kw["kind"] = o["kind"]
    before = [wfc.copy(), qn.copy()]
    model_pos = (pc.orb_pos_nm.copy(), pc.lat_vec.copy())
    tb.Visualizer().plot_wfc3d(model, wfc, qn, cube_name=name,
                               resolution=o["res6"] / S * BOHR2NM, **kw)
    intact = bool(np.array_equal(before[0], wfc) and np.array_equal(before[1], qn)
                  and np.array_equal(model_pos[0], pc.orb_pos_nm)
                  and np.array_equal(model_pos[1], pc.lat_vec))
    with open(name) as f:
        lines = f.read().split("\n")
    os.remove(name)
    nat = int(lines[2][:5])
    head = [float(lines[2][5 + 12 * i:17 + 12 * i]) for i in range(3)]
    num, step = [], []
    for t in lines[3:6]:
        num.append(int(t[:5]))
        step.append([fx(t[5 + 12 * i:17 + 12 * i], S) for i in range(3)])
    atoms = [[int(t[:5])] + [fx(t[5 + 12 * i:17 + 12 * i], S) for i in range(4)]
             for t in lines[6:6 + nat]]
    rest = lines[6 + nat:]
    vals = [float(t[i:i + 13]) for t in rest for i in range(0, len(t), 13)]
    short = all(len(t) <= 78 for t in rest)
    pts = []
    if len(vals) == num[0] * num[1] * num[2]:
        for p in range(0, len(vals), o["every"]):
            i, r = divmod(p, num[1] * num[2])
            j, k = divmod(r, num[2])
            pts.append([i, j, k, fx(vals[p], S)])
    return dict(nat=nat, org=[fx(x, S) for x in head], num=num, step=step,
                atoms=atoms, nval=len(vals), pts=pts, intact=intact, short=short)


def call(m, sp, o):
    op = o["op"]
    if op == "hk":
        return hk(m.pcs[o["p"] - 1], o)
    if op == "print":
        return listing(m.pcs[o["p"] - 1])
    if op == "edit":
        pc = m.pcs[o["p"] - 1]
        if o["what"] == "hop":
            pc.add_hopping(tuple(o["t"][:3]), o["t"][3], o["t"][4], complex(*o["t"][5:]))
        else:
            pc.set_orbital(o["i"], energy=o["e"])
        return {}
    if op == "cube":
        return cube(o)
    with Keep():
        if op == "pcplot":
            pc = m.pcs[o["p"] - 1]
            pc.plot(**style(o, True))
            res = axes_content(plt.gcf().axes[0])
            res["half"] = half_pc(pc)
        elif op == "scplot":
            sc = m.scs[o["s"] - 1]
            fig, ax = plt.subplots()
            sc.plot(ax, **style(o, True))
            res = axes_content(ax)
            res["half"] = half_list(sc.get_hop())
        elif op == "spplot":
            kw = style(o)
            kw.pop("hop_color")
            if o["col"]:
                kw["sc_orb_colors"] = [
                    (lambda x, i=i: [100 * i + j for j in range(len(x))])
                    for i in range(len(m.d["sp"]["sc"]))]
            sp.plot(sc_hop_colors=[HOP] * len(m.d["sp"]["sc"]),
                    inter_hop_colors=[HOP] * len(m.d["sp"]["ih"]), **kw)
            res = axes_content(plt.gcf().axes[0])
            sp.init_hop()
            res["half"] = half_of(sp)
        else:
            res = visual(m, sp, o)
    plt.close("all")
    return res


def run_case(case):
    m = mk.Model(case["cfg"]) if case["cfg"]["pcs"] else None
    sp = m.sample() if m and case["cfg"]["sp"]["sc"] else None
    ev = []
    for o in case["ops"]:
        e = dict(o)
        try:
            e.update(call(m, sp, o))
            e["out"] = "ok"
        except Exception as err:
            e["out"] = type(err).__name__
            e["msg"] = str(err)[:160]
        ev.append(e)
    return dict(ev=ev)
