"""A plot is a pure function of the object and the configuration."""
import copy
import math

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, close

import pycircstat2.visualization as viz
from pycircstat2 import Axial, Circular
from pycircstat2.descriptive import compute_smooth_params, nonparametric_density_estimation

XF = [0.0, 1.5, 3.0, 4.5, 6.0]
FF = [0.1, 0.4, 0.2, 0.3, 0.1]
# simplest first; None = defaults
CONFIGS = (
    None,
    {"density": False},
    {"rose": False},
    {"mean": False},
    {"median": False},
    {"mean": {"ci": False}},
    {"median": {"ci": False}},
    {"mean": False, "median": False, "rose": False, "density": False},
    {"outward": False},
    {"scatter": {"r_start": 0.5}},
    {"rose": {"bins": 8, "counts": True}},
    {"density": True, "mean": True},
    {"density": {"h0": 0.7, "color": "red"}},
    {"density": {"f": FF, "x": XF}},
    {"density": {"f": FF}},
    {"radius": {"lim_max": 4, "ticks": [0, 1, 2]}},
    {"zero_location": "E", "clockwise": 1, "legend": False},
    {"radius": {"ticks": [0, 0.5]}, "median": {"color": "green"}, "density": False},
    {"density": {"method": "MovM"}},
)


def make(d):
    if d == 0:
        return Circular(S.angles(("P", "vm", 12, 2, 11, 1)), unit="radian")
    if d == 1:
        return Circular(np.array([350., 355, 3, 3, 3, 10, 14, 8, 359, 2]), unit="degree")
    if d == 2:
        return Circular(np.arange(0, 24, 2.0), w=[3, 1, 0, 0, 0, 0, 2, 9, 4, 8, 1, 5], unit="hour")
    if d == 3:
        return Circular([10.0, 130.0, 250.0], unit="degree", n_clusters_max=2)
    if d == 4:
        return Circular(np.arange(15, 360, 30.0), w=[1, 2, 9, 4, 0, 0, 1, 7, 5, 1, 0, 1], n_clusters_max=2)
    if d == 5:
        return Circular(S.angles(("P", "bi", 30, 3, 10, 1)), unit="radian", n_clusters_max=2, kwargs_mean_ci=dict(method="dispersion"))
    if d == 6:
        return Circular(S.angles(("P", "vm", 30, 3, 0, 1)), unit="radian", bins=10)
    if d == 7:
        return Axial(S.angles(("P", "vm", 26, 2, 3, 1)) / 2, unit="radian")
    if d == 8:       # recorded over several turns, repeats on different turns
        return Circular(np.array([-30., 330, 690, 10, 370, 15, -345, 725, 40, -10, 350, 1]), unit="degree")
    if d == 9:       # axes around the origin, both ends recorded: intervals run across the origin
        al = S.angles(("P", "vm", 30, 3, 0, 1)) / 2
        return Axial(np.mod(al - al[0] + np.pi * (np.arange(30) % 2), 2 * np.pi), unit="radian")
    if d == 10:
        return Axial(np.arange(10, 180, 20.0), w=[3, 1, 0, 0, 2, 0, 4, 1, 9])
    if d == 11:
        return Axial(S.angles(("P", "bi", 30, 3, 10, 1)) + 1.0, unit="radian", bins=9)
    if d == 12:      # a twelve-hour dial
        return Circular(np.array([1.1, 2.2, 2.6, 11.1, 11.6, 0.4, 3.2, 1.1, 1.1]), unit="hour", full_cycle=12)
    return Circular(np.array([1.1, 2.2, 2.6, 23.2, 23.6, 0.4, 3.2, 1.1, 1.1, 40.3]), unit="hour", full_cycle=36)


def norm(v):
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((k, norm(x)) for k, x in v.items()))
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return repr(v)
    return ("obj", id(v))


def snapshot(c, skip=("density_x", "density_f")):
    return {k: norm(v) for k, v in vars(c).items() if k not in skip}


def eff(cfg):
    """reference merge of the documented defaults with the user's settings"""
    base = dict(outward=True, r_start=1, bins=12, counts=False, rose=True, density=dict(method="nonparametric"), mean=True, mean_ci=True,
                median=True, median_ci=True, lim=None, legend=True, zero="N", cw=-1, ticks=[0, 1])
    cfg = cfg or {}
    for k, v in cfg.items():
        if k == "outward":
            base["outward"] = v
        elif k == "scatter":
            base["r_start"] = v.get("r_start", 1)
        elif k == "rose":
            if v is False:
                base["rose"] = False
            elif isinstance(v, dict):
                base["bins"] = v.get("bins", 12)
                base["counts"] = v.get("counts", False)
        elif k == "density":
            if v is False:
                base["density"] = None
            elif isinstance(v, dict):
                base["density"].update(v)
        elif k in ("mean", "median"):
            if v is False:
                base[k] = False
            elif isinstance(v, dict):
                base[k + "_ci"] = v.get("ci", True)
        elif k == "radius":
            base["lim"] = v.get("lim_max", None)
            base["ticks"] = v.get("ticks", [0, 1])
        elif k == "legend":
            base["legend"] = v
        elif k == "zero_location":
            base["zero"] = v
        elif k == "clockwise":
            base["cw"] = v
    return base


def artists(ax):
    out = []
    for l in ax.lines:
        out.append(("line", l.get_label() if l.get_label() in ("mean", "median") else "", np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)))
    return out


def check_axes(c, ax, e, f):
    from matplotlib.collections import PathCollection
    lines = artists(ax)
    # --- observations
    pts = [col.get_offsets() for col in ax.collections if isinstance(col, PathCollection)]
    pts = np.vstack([np.asarray(p) for p in pts]) if pts else np.zeros((0, 2))
    al = np.asarray(c.alpha, float)
    if c.grouped:
        if len(pts):
            f.append("grouped data drawn as points")
    else:
        if len(pts) != c.n:
            f.append(f"{len(pts)} points drawn for {c.n} observations")
        else:
            a = np.sort(np.mod(al, O.TAU))
            b = np.sort(pts[:, 0])
            if not np.all(np.abs(a - b) < 1.1e-3):
                f.append("points are not at the observed angles")
            sgn = 1 if e["outward"] else -1
            bya = {}
            for x, y in pts:
                bya.setdefault(round(float(x), 3), []).append(y)
            for ys in bya.values():
                want = [e["r_start"] + sgn * 0.05 * (i + 1) for i in range(len(ys))]
                if not close(sorted(ys), sorted(want), 1e-6, 1e-6):
                    f.append("repeated observations are not stacked")
                    break
    # --- rose
    bars = list(ax.patches)
    if not e["rose"]:
        if bars:
            f.append("rose drawn although disabled")
    else:
        if c.grouped:
            w = np.asarray(c.w, float)
            ctr = al
        else:
            k = e["bins"]
            w = np.zeros(k)
            for x in np.mod(al, O.TAU):
                w[min(int(x / O.TAU * k), k - 1)] += 1
            ctr = (np.arange(k) + 0.5) * O.TAU / k
        if len(bars) != len(w):
            f.append(f"{len(bars)} sectors for {len(w)} bins")
        else:
            h = [b.get_height() for b in bars]
            x = [b.get_x() + b.get_width() / 2 for b in bars]
            if not close(h, np.sqrt(w / w.max()), 1e-9, 1e-9):
                f.append("sector heights are not proportional to the root of the counts")
            if not close(x, ctr, 1e-9, 1e-9):
                f.append("sectors are not at the bin centres")
            span = math.pi if c.grouped and hasattr(c, "alpha_double") else O.TAU
            if not close([b.get_width() for b in bars], [span / len(w)] * len(w), 1e-9, 1e-9):
                f.append("the sectors do not tile the cycle")
            ntx = len([t for t in ax.texts])
            if e["counts"]:
                for t in ax.texts:
                    j = int(np.argmin([abs(O.adiff(t.get_position()[0], x)) for x in ctr]))
                    if abs(O.adiff(t.get_position()[0], ctr[j])) > 1e-3 or float(t.get_text()) != w[j]:
                        f.append(f"label {t.get_text()} at {t.get_position()[0]}, counts {w.tolist()}")
            if ntx != (int(np.sum(w > 0)) if e["counts"] else 0):
                f.append(f"{ntx} count labels")
    # --- density
    want = None
    mix = getattr(c, "mixture_opt", None)
    if e["density"]:
        d = e["density"]
        if not c.grouped:
            if d.get("f") is not None:
                fx = np.linspace(0, O.TAU, len(d["f"])) if d.get("x") is None else np.array(d["x"])
                want = (fx, np.array(d["f"]) + 1.05)
            elif d["method"] == "MovM":
                fx = np.linspace(0, O.TAU, 100)
                want = (fx, mix.predict_density(x=fx, unit="radian") + 1.05)
            else:
                h0 = d.get("h0", compute_smooth_params(c.r, c.n))
                fx, ff = nonparametric_density_estimation(np.asarray(c.alpha), h0)
                want = (fx, ff + 1.05)
        elif mix is not None and e["rose"]:
            fx = np.linspace(0, O.TAU, 100)
            want = (fx, mix.predict_density(x=fx, unit="radian") + 1)
    if want is not None:
        hit = [l for l in lines if len(l[2]) == len(want[0]) and close(l[2], want[0]) and close(l[3], want[1])]
        if not hit:
            f.append("density curve missing or wrong")
        top = e["lim"] if e["lim"] is not None else float(np.max(want[1]))
        if math.isfinite(top) and e["density"] and not math.isclose(ax.get_ylim()[1], top, rel_tol=1e-6):
            if not c.grouped and e["lim"] is None and False:
                pass
            f.append(f"radial limit {ax.get_ylim()[1]} instead of {top}")
    else:
        if [l for l in lines if len(l[2]) > 60]:
            f.append("density drawn although disabled")
    # --- mean / median
    per = math.pi if hasattr(c, "alpha_double") else O.TAU
    for nm, rad, on, ci in (("mean", c.r, e["mean"], e["mean_ci"]), ("median", 0.95, e["median"], e["median_ci"])):
        hit = [l for l in lines if l[1] == nm]
        if not on:
            if hit:
                f.append(f"{nm} drawn although disabled")
            continue
        if len(hit) != 1 or not close(hit[0][2], [0, getattr(c, nm)], 1e-12, 1e-12) or not close(hit[0][3], [0, rad], 1e-12, 1e-12):
            f.append(f"{nm} line missing or wrong")
        lb, ub = getattr(c, nm + "_lb", math.nan), getattr(c, nm + "_ub", math.nan)
        arcs = [l for l in lines if l[1] == "" and 30 <= len(l[2]) <= 60 and np.allclose(l[3], rad, equal_nan=True) and not np.isnan(l[2]).any()]
        if not ci or math.isnan(lb):
            if arcs and not (math.isclose(c.r, 0.95)):
                f.append(f"{nm} interval drawn although disabled or undefined")
        else:
            ok = [a for a in arcs if abs(math.remainder(a[2][0] - lb, per)) < 1e-9 and abs(math.remainder(a[2][-1] - ub, per)) < 1e-9 and
                  math.isclose(abs(a[2][-1] - a[2][0]), (ub - lb) % per, abs_tol=1e-9)]
            if not ok:
                f.append(f"{nm} interval is not drawn as the arc from its lower to its upper limit")
    if c.unit == "hour":
        pos, lab = list(ax.xaxis.get_major_locator()()), list(ax.xaxis.get_major_formatter().seq)
        hm = [(lambda h, m: int(h) + int(m) / 60)(*t.split(":")) for t in lab]
        if len(pos) != len(lab) or not close(hm, np.array(pos) / O.TAU * c.full_cycle, 1e-2, 1e-2):
            f.append(f"dial labelled {lab} at {np.round(pos, 3).tolist()}, a full cycle is {c.full_cycle} hours")
    if not e["density"] and e["lim"] is None and not c.grouped:
        top = float(pts[:, 1].max())
        if not ax.get_ylim()[1] >= top:
            f.append(f"radial limit {ax.get_ylim()[1]} hides observations at {top}")
    leg = ax.get_legend() is not None
    if leg != bool(e["legend"] and (e["mean"] or e["median"])):
        f.append(f"legend shown: {leg}")
    if ax.get_theta_direction() != e["cw"]:
        f.append("direction of rotation ignored")
    off = {"N": math.pi / 2, "E": 0.0}[e["zero"]]
    if abs(O.adiff(ax.get_theta_offset(), off)) > 1e-9:
        f.append("zero location ignored")


class Plots(Space):
    name = "plot-histories"
    chunk = 4

    def __init__(self, tier):
        self.max_depth = 2 if tier == "quick" else 3
        self.bounds = f"14 objects (raw, over several turns, grouped, binned, axial, axial grouped and binned, undefined mean, mixtures, dials of 12 and 36 hours) x all sequences of <= {self.max_depth} of {len(CONFIGS)} configurations"
        self.tier = tier

    def roots(self, tier):
        for d in range(14):
            yield (d, (), True)

    def actions(self, s):
        d, hist, fresh = s
        for i in range(len(CONFIGS)):
            if i == 18 and d not in (5,):
                continue
            # second (and later) plots: all pairs, but triples only over a core alphabet
            if len(hist) >= 2 and i not in (0, 1, 5, 7, 15):
                continue
            if self.tier == "quick" and hist and (d not in (1, 2, 5) or hist[0] in (8, 9, 14, 16)):
                continue
            yield ("plot", i), (d, hist + (i,), fresh)

    def check(self, s):
        import matplotlib.pyplot as plt
        d, hist, _ = s
        if not hist:
            return None, []
        f = []
        c = make(d)
        before = snapshot(c)
        text = repr(c)
        dflt = copy.deepcopy(viz.DEFAULT_CIRC_PLOT_CONFIG)
        try:
            for i in hist:
                cfg = CONFIGS[i]
                user = copy.deepcopy(cfg)
                ax = c.plot(config=user)
                if user != cfg:
                    f.append(f"the caller's configuration {cfg} was changed to {user}")
                if ax is None or not hasattr(ax, "lines"):
                    f.append("plot does not return the Axes")
                    return None, f
                check_axes(c, ax, eff(cfg), f)
                plt.close("all")
                if f:
                    break
        finally:
            plt.close("all")
        if viz.DEFAULT_CIRC_PLOT_CONFIG != dflt:
            f.append("the library's default configuration was changed by plotting")
            viz.DEFAULT_CIRC_PLOT_CONFIG.clear()
            viz.DEFAULT_CIRC_PLOT_CONFIG.update(dflt)
        after = snapshot(c)
        if before != after:
            f.append(f"plotting changed the object: {[k for k in before if before[k] != after.get(k)] + [k for k in after if k not in before]}")
        if repr(c) != text:
            f.append("summary changed by plotting")
        return (d, hist), f


def spaces(tier):
    return [Plots(tier)]
