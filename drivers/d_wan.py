"""Conversion of Wannier90 output files."""
import os
import shutil
import tempfile
import numpy as np
import tbplas as tb
from enc import fx, iv, coin

S = 10000


def write(dst, F):
    seed = os.path.join(dst, F["seed"])
    out = ["num_wann = %d" % F["nw"], "  num_iter=100", ""] if F["pre"] else []
    blk = ["  begin unit_cell_cart" if F["pre"] else "begin unit_cell_cart"]
    if F["unit"]:
        blk.append(" " + F["unit"])
    blk += ["  %16.9f %16.9f %16.9f" % tuple(v) for v in F["lat"]]
    blk.append("end unit_cell_cart")
    prj = ["begin projections", "C : s", "end projections", ""]
    out += (prj + blk) if F["pre"] else (blk + [""] + prj)
    with open(seed + ".win", "w") as f:
        f.write("\n".join(out) + "\n")
    with open(seed + "_centres.xyz", "w") as f:
        f.write("%6d\n comment\n" % len(F["xyz"]))
        for lab, p in F["xyz"]:
            f.write("%-6s %14.8f %14.8f %14.8f\n" % (lab, *[x / 1000 for x in p]))
    nw = F["nw"]
    with open(seed + "_hr.dat", "w") as f:
        f.write(" written on 1Jan2020\n%12d\n%12d\n" % (nw, len(F["R"])))
        for i in range(0, len(F["nd"]), 15):
            f.write("".join("%5d" % x for x in F["nd"][i:i + 15]) + "\n")
        for r, h in zip(F["R"], F["h"]):
            for j in range(nw):
                for i in range(nw):
                    f.write("%5d%5d%5d%5d%5d%12.6f%12.6f\n" % (
                        *r, i + 1, j + 1, h[i][j][0] / S, h[i][j][1] / S))
    if F["haswv"]:
        with open(seed + "_wsvec.dat", "w") as f:
            f.write("## written on 1Jan2020 with use_ws_distance=.true.\n")
            for r, w in zip(F["R"], F["ws"]):
                for i in range(nw):
                    for j in range(nw):
                        f.write("%5d%5d%5d%5d%5d\n%5d\n" % (*r, i + 1, j + 1, len(w[i][j])))
                        for t in w[i][j]:
                            f.write("%5d%5d%5d\n" % tuple(t))
    return seed


def run_case(case):
    F = case["cfg"]
    dst = tempfile.mkdtemp()
    here = os.getcwd()
    ev = []
    try:
        seed = write(dst, F)
        args = [seed]
        if F["seed"] == "wannier90" and coin():
            os.chdir(dst)
            args = []
        for o in case["ops"]:
            e = dict(o, op="conv")
            kw = dict(correct_hop=o["ws"], hop_eng_cutoff=o["cut"] / S)
            if o.get("dflt"):
                kw = {k: v for k, v in kw.items() if k == "correct_hop" and v}
            try:
                pc = tb.wan2pc(*args, **kw)
                ind, eng = pc.hop_ind, pc.hop_eng
                e.update(out="ok", lat=[[fx(x * 10, 1000000) for x in v] for v in pc.lat_vec],
                         pos=[[fx(x * 10, 1000000) for x in v]
                              for v in pc.orb_pos_nm],
                         eng=[iv(x, S) for x in pc.orb_eng],
                         hop=[[int(x) for x in k] + [iv(z.real, S), iv(z.imag, S)]
                              for k, z in zip(ind, eng)])
            except Exception as x:
                e["out"] = type(x).__name__
            ev.append(e)
    finally:
        os.chdir(here)
        shutil.rmtree(dst, ignore_errors=True)
    return dict(ev=ev)
