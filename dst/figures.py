"""Figures made by the repository's scripts, taken apart when they are saved, against the recorded statistics (C18, C21)."""
import collections
import itertools
import math
import os

from . import kernel, loader

TOL = 1e-6


class Mismatch(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


# ------------------------------------------------------------------------------------------------ mathematics (independent)
def log_likelihood(n, k, p):
    if (p <= 0 and k) or (p >= 1 and k < n):
        return -math.inf
    return (k * math.log(p) if k else 0.0) + ((n - k) * math.log1p(-p) if k < n else 0.0)


def interval(n, k, ratio):
    """The error rates whose likelihood is within the ratio of the best one's."""
    want = log_likelihood(n, k, k / n) + math.log(ratio)

    def edge(out, ins):
        for _ in range(120):
            m = (out + ins) / 2
            if log_likelihood(n, k, m) < want:
                out = m
            else:
                ins = m
        return ins
    return (edge(0.0, k / n) if k else 0.0), (edge(1.0, k / n) if k < n else 1.0)


def per_cell(rate, cells):
    """The flip rate that gives the total flip rate after so many independent cells."""
    if rate > 0.5:
        return 1 - per_cell(1 - rate, cells)
    if rate == 0.5:
        return 0.5
    return -math.expm1(math.log1p(-2 * rate) / cells) / 2


def fit(xs, ys):
    """Slope and intercept of the least squares line, the mean of x and the spread of x."""
    n = len(xs)
    mx, my = math.fsum(xs) / n, math.fsum(ys) / n
    sxx = math.fsum((x - mx) ** 2 for x in xs)
    b = math.fsum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sxx
    return b, my - b * mx, mx, sxx


def near(a, b, rel=TOL, abs_=1e-12):
    return math.isclose(a, b, rel_tol=rel, abs_tol=abs_)


# ------------------------------------------------------------------------------------------------ taking figures apart
_saved = None


def preload():
    os.environ.setdefault("MPLBACKEND", "Agg")
    import warnings
    warnings.filterwarnings("ignore")
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, matplotlib.patches, matplotlib.colors, matplotlib.ticker  # noqa
    import matplotlib.backends.backend_agg  # noqa
    matplotlib.pyplot.close(matplotlib.pyplot.figure())


def install():
    global _saved
    preload()
    import matplotlib.figure
    import matplotlib.pyplot as plt
    F = matplotlib.figure.Figure
    _saved = (F.savefig, F.tight_layout, plt.show)

    def savefig(self, fname, *a, **k):
        p = kernel.current_proc()
        if p is None:
            return
        p.user.setdefault("figs", []).append((os.path.basename(str(fname)), [take_apart(ax) for ax in self.axes]))
        with open(fname, "wb") as f:
            f.write(b"figure\n")

    F.savefig = savefig
    F.tight_layout = lambda self, *a, **k: None
    plt.show = lambda *a, **k: None


def uninstall():
    global _saved
    if _saved is None:
        return
    import matplotlib.figure
    import matplotlib.pyplot as plt
    F = matplotlib.figure.Figure
    F.savefig, F.tight_layout, plt.show = _saved
    _saved = None
    plt.close("all")


def hue(a):
    import matplotlib.colors as mcolors
    if hasattr(a, "get_color"):
        return mcolors.to_hex(a.get_color())
    for c in (a.get_facecolor(), a.get_edgecolor()):
        if len(c):
            return mcolors.to_hex(c[0][:3] if hasattr(c[0], "__len__") else c[:3])
    return None


def fixed_ticks(axis):
    """[(position, label)] of hand-made tick labels."""
    import matplotlib.ticker as mt
    fixed = isinstance(axis.get_major_locator(), mt.FixedLocator)
    if not fixed and not isinstance(axis.get_major_formatter(), (mt.FixedFormatter, mt.FuncFormatter)):
        return []
    at = [float(x) for x in axis.get_major_locator()()]
    ticks = list(zip(at, [str(x) for x in axis.get_major_formatter().format_ticks(at)]))
    lo, hi = sorted(axis.get_view_interval())
    return ticks if fixed else [(x, t) for x, t in ticks if lo <= x <= hi]


def number(text):
    """What a tick label says, None if it is no plain number."""
    try:
        return float(text[:-1]) / 100 if text.endswith("%") else float(text)
    except ValueError:
        return None


def take_apart(ax):
    import matplotlib.collections as mc
    import matplotlib.colors as mcolors
    s = ax.get_subplotspec()
    out = dict(row=s.rowspan.start if s is not None else 0, col=s.colspan.start if s is not None else 0, title=ax.get_title(),
               xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), xscale=ax.get_xscale(), yscale=ax.get_yscale(), on=ax.axison,
               lines=[], bands=[], dots=[], ticks=fixed_ticks(ax.xaxis) + fixed_ticks(ax.yaxis), legend=[], named=[])
    lg = ax.get_legend()
    if lg is not None:
        out["legend"] = [(t.get_text(), hue(h)) for h, t in zip(lg.legend_handles, lg.get_texts())]
    out["named"] = [(a.get_label(), hue(a)) for a in [*ax.lines, *ax.collections] if not a.get_label().startswith("_")]
    for l in ax.lines:
        xs, ys = [float(x) for x in l.get_xdata()], [float(y) for y in l.get_ydata()]
        if xs:
            out["lines"].append(dict(label=l.get_label(), pts=list(zip(xs, ys)), color=mcolors.to_hex(l.get_color()), dash=l.get_linestyle() != "-"))
    for c in ax.collections:
        if isinstance(c, mc.PathCollection):
            pts = [(float(x), float(y)) for x, y in c.get_offsets()]
            if pts:
                out["dots"].append(dict(label=c.get_label(), pts=pts, size=float(c.get_sizes()[0])))
        elif isinstance(c, mc.PolyCollection):
            at = collections.defaultdict(list)
            for path in c.get_paths():
                for x, y in path.vertices:
                    at[float(x)].append(float(y))
            if at:
                col = c.get_facecolor()
                out["bands"].append(dict(at={x: (min(v), max(v)) for x, v in at.items()}, color=mcolors.to_hex(col[0][:3]) if len(col) else None))
    return out


# ------------------------------------------------------------------------------------------------ comparing
# keys of totals: (w, h, rounds, noise, style, obs, distance, qubits, decoder) -> (shots, correct, seconds)
def cells_of(k):
    return math.ceil(k[2] / k[6])


def same_points(got, want, rel=TOL):
    got, want = sorted(got), sorted(want)
    return len(got) == len(want) and all(near(a[0], b[0], 1e-9) and near(a[1], b[1], rel) for a, b in zip(got, want))


def check_curves(where, panel, data):
    """One curve and one band per problem family."""
    groups = collections.defaultdict(dict)
    for k, v in data.items():
        groups[k[:3] + k[4:]][k[3]] = (k, v)
    lines, bands = list(panel["lines"]), list(panel["bands"])
    for g, by_noise in sorted(groups.items()):
        label = f"{g[2]} rounds, {g[0]}x{g[1]} data"
        want = [(p, per_cell((v[0] - v[1]) / v[0], cells_of(k))) for p, (k, v) in by_noise.items() if v[1] < v[0]]
        line = None
        if want:
            line = next((l for l in lines if l["label"] == label and same_points(l["pts"], want)), None)
            if line is None:
                raise Mismatch("wrong-curve", f"{where}: no curve {label!r} through {sorted(want)[:4]}; there are "
                                              f"{[(l['label'], l['pts'][:4]) for l in lines][:4]}")
            lines.remove(line)

        def fits(b):
            if len(b["at"]) != len(by_noise) or (line is not None and b["color"] != line["color"]):
                return False
            for p, (k, v) in by_noise.items():
                y = next((y for x, y in b["at"].items() if near(x, p, 1e-9)), None)
                if y is None:
                    return False
                n, e, c = v[0], v[0] - v[1], cells_of(k)
                for got, exact in zip(y, interval(n, e, 1e-3)):
                    a, z = (per_cell(min(1.0, max(0.0, exact + s * 2 / (100 * n))), c) for s in (-1, 1))
                    if not (a - 1e-12 - TOL * abs(a) <= got <= z + 1e-12 + TOL * abs(z)):
                        return False
            return True
        band = next((b for b in bands if fits(b)), None)
        if band is None:
            raise Mismatch("wrong-band", f"{where}: no shaded likelihood interval for {label!r} with "
                                         f"{[(p, v[0], v[0] - v[1]) for p, (k, v) in sorted(by_noise.items())][:4]} (noise, shots, errors)")
        bands.remove(band)
    if lines or bands:
        raise Mismatch("alien-curve", f"{where}: {len(lines)} curves and {len(bands)} intervals show no recorded problem: "
                                      f"{[(l['label'], l['pts'][:3]) for l in lines][:3]}")


def families(data):
    """noise -> {distance: {'h': (key, value), 'v': (key, value)}}"""
    out = collections.defaultdict(lambda: collections.defaultdict(dict))
    for k, v in data.items():
        o = "h" if k[5] in "HX" else "v"
        if o in out[k[3]][k[6]]:
            raise Mismatch("ambiguous-distance", f"a figure was made although {k} and {out[k[3]][k[6]][o][0]} claim the same place in it")
        out[k[3]][k[6]][o] = (k, v)
    return out


def either(fam):
    """[(distance, rate at which a cell flips either observable)]"""
    out = []
    for d in sorted(fam):
        a = [per_cell((v[0] - v[1]) / v[0], cells_of(k)) if v[0] != v[1] else 0.0 for k, v in (fam[d][o] for o in "hv" if o in fam[d])]
        a = a * 2 if len(a) == 1 else a
        if a[0] > 0 and a[1] > 0:
            out.append((d, 1 - (1 - a[0]) * (1 - a[1])))
    return out


def suppressing(pts):
    """Whether the fitted line says that errors get suppressed; None if it cannot be told (rounding)."""
    if len(pts) <= 1:
        return False
    b, a, _, _ = fit([x for x, _ in pts], [math.log(y) for _, y in pts])
    if any(abs(u) < 1e-9 for u in (b + 0.02, a + 0.1, b + 1)):
        return None
    return (b < -0.02 and a < -0.1) or b < -1


def select(data, style, decoder, obs=None):
    return {k: v for k, v in data.items() if k[4] == style and k[8] == decoder and (obs is None or k[5] == obs)}


def check_fits(where, panel, data):
    dots, lines = list(panel["dots"]), list(panel["lines"])
    for noise, fam in sorted(families(data).items()):
        pts = either(fam)
        if pts:
            got = next((d for d in dots if d["label"] == str(noise) and same_points(d["pts"], pts)), None)
            if got is None:
                raise Mismatch("wrong-points", f"{where}: no points {pts[:4]} for noise {noise}; there are {[(d['label'], d['pts'][:4]) for d in dots][:4]}")
            dots.remove(got)
        s = suppressing(pts)
        if s is None:
            return
        if s:
            b, a, _, _ = fit([x for x, _ in pts], [math.log(y) for _, y in pts])
            want = [((math.log(y) - a) / b, y) for y in (1.0, 1e-13)]
            got = next((l for l in lines if all(any(near(p[0], q[0], 1e-5, 1e-6) and near(p[1], q[1], 1e-6, 0) for q in l["pts"]) for p in want)), None)
            if got is None:
                raise Mismatch("wrong-fit", f"{where}: no fitted line through {want} for noise {noise}; there are {[l['pts'][:3] for l in lines][:4]}")
            lines.remove(got)
    if dots or lines:
        raise Mismatch("alien-points", f"{where}: {len(dots)} point sets and {len(lines)} lines show no recorded problem")


def case_label(style, decoder):
    return style.split("_")[0].capitalize() + (" (Correlated)" if "correlated" in decoder else " (Standard)")


def qubits(rep, d, style):
    if "surface" in style:
        return (rep[7] + 1) * (d / rep[6]) ** 2 - 1
    return rep[7] * (math.ceil(d / 4) * 4 / rep[6]) ** 2


def q_range(rep, d, slack, style):
    v = [qubits(rep, math.ceil(d + s * slack), style) for s in (-1, 0, 1)]
    return v


def check_projection(where, panel, data, cases, kind):
    """Lambda factors or qubit counts: one curve and one band per case."""
    lines, bands = list(panel["lines"]), list(panel["bands"])
    poor = []
    for style, decoder in cases:
        sub = select(data, style, decoder)
        rows = []
        for noise, fam in sorted(families(sub).items()):
            pts = either(fam)
            s = suppressing(pts)
            if s is None:
                return
            if not s:
                continue
            xs, ys = [float(x) for x, _ in pts], [math.log(y) for _, y in pts]
            b, a, mx, sxx = fit(xs, ys)
            if kind == "lambda":
                w = 1 / math.sqrt(sxx)
                rows.append((noise, [[math.exp(-2 * t)] for t in (b, b + w, b - w)], 1e-3))
            else:
                rep = next(iter(sub))
                t = math.log(1e-12)
                d = (t - a) / b
                b2, a2, my, syy = fit(ys, xs)
                w = math.sqrt(1 / len(xs) + (t - my) ** 2 / syy)
                e = a2 + b2 * t
                rows.append((noise, [q_range(rep, d, 1e-6 + 1e-9 * abs(d), style), q_range(rep, e - w, 1e-6 + 1e-3 * w, style),
                                     q_range(rep, e + w, 1e-6 + 1e-3 * w, style)], 1e-6))
            if min(sum(o in f for f in fam.values()) for o in "hv") < 3:
                poor.append(noise)
        if not rows:
            continue
        label = case_label(style, decoder)

        def ok(v, alts, rel):
            return any(near(v, x, rel) for x in alts)
        line = next((l for l in lines if l["label"] == label and len(l["pts"]) == len(rows) and
                     all(near(p[0], r[0], 1e-9) and ok(p[1], r[1][0], r[2]) for p, r in zip(sorted(l["pts"]), rows))), None)
        if line is None:
            raise Mismatch("wrong-projection", f"{where}: no curve {label!r} through {[(r[0], r[1][0]) for r in rows][:4]}; there are "
                                               f"{[(l['label'], l['pts'][:4]) for l in lines][:4]}")
        lines.remove(line)

        def fits_(bd):
            if len(bd["at"]) != len(rows) or bd["color"] != line["color"]:
                return False
            for r in rows:
                y = next((y for x, y in bd["at"].items() if near(x, r[0], 1e-9)), None)
                if y is None or not any(ok(y[0], p, r[2]) and ok(y[1], q, r[2]) for p, q in (r[1][1:], r[1][:0:-1])):
                    return False
            return True
        band = next((bd for bd in bands if fits_(bd)), None)
        if band is None:
            raise Mismatch("wrong-projection", f"{where}: no range for {label!r} like {[(r[0], r[1][1], r[1][2]) for r in rows][:3]}; there are "
                                               f"{[sorted(bd['at'].items())[:3] for bd in bands][:3]}")
        bands.remove(band)
    if lines or bands:
        raise Mismatch("alien-projection", f"{where}: {len(lines)} curves and {len(bands)} ranges belong to no recorded problem")
    marked = {x for d in panel["dots"] for x, _ in d["pts"]}
    if marked - set(poor) or (kind == "teraquop" and set(poor) - marked):
        raise Mismatch("wrong-marks", f"{where}: extrapolations marked as poor at {sorted(marked)}, poor ones are {sorted(set(poor))}")


def check_fractions(where, panel, data):
    want = collections.defaultdict(list)
    for k, v in data.items():
        want[k[3]].append((k[6], (v[0] - v[1]) / v[0]))
    lines = list(panel["lines"])
    for noise, pts in want.items():
        l = next((l for l in lines if l["label"] == str(noise) and same_points(l["pts"], pts)), None)
        if l is None:
            raise Mismatch("wrong-curve", f"{where}: no curve {str(noise)!r} through {sorted(pts)[:4]}; there are {[(l['label'], l['pts'][:4]) for l in lines][:4]}")
        lines.remove(l)
    if lines:
        raise Mismatch("alien-curve", f"{where}: {len(lines)} curves show no recorded problem")


I, C = "internal", "internal_correlated"
STYLES = ["SD6", "SI1000", "EM3"]


def threshold_cases(focused):
    """(row, column) -> (style, observable, decoder)"""
    out = {}
    for col, name in enumerate(STYLES):
        full = [(f"surface_{name}", o, d) for d in (I, C) for o in "XZ"] + [(f"honeycomb_{name}" + "_v2" * (name == "EM3"), o, d) for d in (I, C) for o in "HV"]
        pick = [full[3], full[6]] if focused else full
        for row, c in enumerate(pick):
            if name != "EM3" or c[0].startswith("honeycomb"):
                out[row, col] = c
    return out


def fit_cases(focused):
    out = {}
    for col, name in enumerate(STYLES):
        full = [(f"surface_{name}", d) for d in (I, C)] + [(f"honeycomb_{name}" + "_v2" * (name == "EM3"), d) for d in (I, C)]
        pick = [full[1], full[3]] if focused else full
        for row, c in enumerate(pick):
            if name != "EM3" or c[0].startswith("honeycomb"):
                out[row, col] = c
    return out


def check_grid(where, axes, cases, f):
    at = {(a["row"], a["col"]): a for a in axes}
    named = set()
    for rc, case in cases.items():
        a = at.get(rc)
        if a is None or not a["on"]:
            raise Mismatch("missing-panel", f"{where}: no panel in row {rc[0]}, column {rc[1]} for {case}")
        f(f"{where} {case}", a, case)
        if a["title"]:
            named.add(rc[1])
            if a["title"] != STYLES[rc[1]]:
                raise Mismatch("wrong-title", f"{where}: the panel of {case} is titled {a['title']!r}")
        if a["ylabel"] and not a["ylabel"].startswith(case_label(case[0], case[-1])):
            raise Mismatch("wrong-title", f"{where}: the panel of {case} is labelled {a['ylabel']!r}")
        if len(case) == 3 and a["ylabel"]:
            o = {"H": "Horizontal", "V": "Vertical"}.get(case[1], case[1])
            if f"{o} Observable" not in a["ylabel"]:
                raise Mismatch("wrong-title", f"{where}: the panel of {case} is labelled {a['ylabel']!r}")
    if named != {0, 1, 2}:
        raise Mismatch("wrong-title", f"{where}: the columns {sorted({0, 1, 2} - named)} have no title")
    for rc, a in at.items():
        if rc not in cases and (a["lines"] or a["dots"] or a["bands"]):
            raise Mismatch("alien-panel", f"{where}: data in the panel of row {rc[0]}, column {rc[1]}")


def check_marks(name, axes):
    """Tick labels state their position; legend entries look like what they name."""
    for a in axes:
        for x, text in a["ticks"]:
            v = number(text)
            if v is not None and not near(v, x, 1e-3):
                raise Mismatch("wrong-tick", f"{name}: the tick at {x} is labelled {text!r}")
    named = collections.defaultdict(set)
    for a in axes:
        for label, color in a["named"]:
            named[label].add(color)
    for a in axes:
        for text, color in a["legend"]:
            if text in named and color not in named[text]:
                raise Mismatch("wrong-legend", f"{name}: the legend shows {text!r} in {color}, it is drawn in {sorted(named[text])}")


def check_figure(name, axes, data):
    check_marks(name, axes)
    stem, _ = os.path.splitext(name)
    if stem in ("threshold", "threshold_all"):
        check_grid(name, axes, threshold_cases(stem == "threshold"), lambda w, a, c: check_curves(w, a, select(data, c[0], c[2], c[1])))
    elif stem in ("linefits", "linefits_all"):
        check_grid(name, axes, fit_cases(stem == "linefits"), lambda w, a, c: check_fits(w, a, select(data, *c)))
    elif stem in ("lambda", "teraquop"):
        at = {a["col"]: a for a in axes}
        for col, s in enumerate(STYLES):
            if at[col]["title"] != s:
                raise Mismatch("wrong-title", f"{name}: column {col} is titled {at[col]['title']!r}")
            cases = [(f"honeycomb_{s}" + "_v2" * (s == "EM3"), d) for d in (I, C)] + [(f"surface_{s}", d) for d in (I, C) if s != "EM3"]
            check_projection(f"{name} {s}", at[col], data, cases, stem)
    elif stem == "detectionfraction":
        at = {a["col"]: a for a in axes}
        for col, s in enumerate(["surface_SD6", "surface_SI1000", "honeycomb_SD6", "honeycomb_SI1000", "honeycomb_EM3_v2", "honeycomb_EM3"]):
            check_fractions(f"{name} {s}", at[col], {k: v for k, v in data.items() if k[4] == s})
    elif stem == "plot":
        check_curves(name, axes[0], data)
    else:
        return False
    return True


EXPECTED = {
    "main_render_threshold_figure": {"threshold", "threshold_all"},
    "main_render_lambda_figure": {"linefits", "linefits_all", "lambda", "teraquop"},
    "main_render_detection_fraction_figure": {"detectionfraction"},
    "plot_data": {"plot"},
}


def check_saved(script, figs, candidates):
    """Every saved figure shows one of the candidate statistics (they differ in records whose line end was still missing)."""
    stems = {os.path.splitext(n)[0] for n, _ in figs}
    if EXPECTED[script] - stems:
        raise Mismatch("missing-figure", f"{script} saved {sorted(stems)}, not {sorted(EXPECTED[script] - stems)}")
    n = 0
    first = None
    for data in candidates:
        try:
            for name, axes in figs:
                n += check_figure(name, axes, data)
            return n
        except Mismatch as e:
            first = first or e
    raise first
