"""C20: drawings show the layout."""
import random
import re
from concurrent.futures import ThreadPoolExecutor

import zoo
from vlib import call, main, pmap, run_tlc, validate

SC = 64
PALETTE = ["#102030ff", "#405060ff", "#708090ff", "#a0b0c0ff"]


def grid(v):
    x = float(v) * SC
    if abs(x - round(x)) > 1e-6:
        raise ValueError(f"something is drawn at {v}, where there is no qubit")
    return round(x)


def size(v):
    return round(float(v) * 1000)


def words(s):
    """The label that a text shows (mathematical subscripts are written as plain text)."""
    m = re.fullmatch(r"\$(.*)_\\mathrm\{(.*)\}\$", s)
    return m[1] + m[2] if m else s


def item(a):
    from matplotlib.colors import to_hex
    from matplotlib.lines import Line2D
    from matplotlib.patches import Circle, Polygon
    from matplotlib.text import Text

    it = dict(s="", r=0, z=size(a.get_zorder()))
    if not a.get_visible():
        return None
    if isinstance(a, Circle):
        it.update(k="circle", pts=[[grid(v) for v in a.center]], col=to_hex(a.get_facecolor(), True), r=size(a.radius))
    elif isinstance(a, Polygon):
        pts = [[grid(v) for v in p] for p in a.get_xy()]
        if len(pts) > 1 and pts[0] == pts[-1]:
            pts.pop()
        it.update(k="patch", pts=pts, col=to_hex(a.get_facecolor(), True))
    elif isinstance(a, Line2D):
        it.update(k="line", pts=[[grid(x), grid(y)] for x, y in zip(a.get_xdata(), a.get_ydata())], col=to_hex(a.get_color(), True))
    elif isinstance(a, Text):
        it.update(k="text", pts=[[grid(v) for v in a.get_position()]], col=to_hex(a.get_color(), True), s=words(a.get_text()),
                  r=size(a.get_fontsize()))
    else:
        return None
    return it


def a_layout(rng):
    """A generated layout, or one made of two, with labels, types and drawing options changed."""
    from surface_sim.layouts import Layout

    fam = rng.choice(["rot", "unrot"])
    parts = []
    for j in range(rng.choice([1, 1, 1, 2])):
        d = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (2, 5), (5, 4)] if rng.random() > .06 else [(6, 6), (11, 2), (2, 12), (5, 8)])
        parts.append(zoo.layout(fam, *d, label=f"L{j}", point=(rng.choice([1, -2.5, 4, 0]) + 40 * j, rng.choice([1, 0, 7.25, -9])),
                                did=1 + 190 * j, zid=1 + 190 * j, xid=1 + 190 * j, ind=300 * j))
    d = (parts[0] if len(parts) == 1 else zoo.union(parts)).to_dict()
    qs = d["layout"]
    if rng.random() < .4:  # other labels
        style = rng.choice(["{}a", "{}_1", "q{}", "{} b", "n{}x2"])
        new = {q["qubit"]: style.format(q["qubit"]) for q in qs}
        for q in qs:
            q["qubit"] = new[q["qubit"]]
            q["neighbors"] = {k: None if v is None else new[v] for k, v in q["neighbors"].items()}
        for t in ("log_z", "log_x"):
            d[t] = {k: [new[x] for x in v] for k, v in d[t].items()}
    if rng.random() < .3:  # a third type of stabilizers
        for q in qs:
            if q["role"] == "anc" and rng.random() < .3:
                q["stab_type"] = "y_type"
    if rng.random() < .5:
        for q in qs:
            if rng.random() < .3:
                mp = {}
                for k, name in (("circle", "facecolor"), ("patch", "facecolor"), ("line", "color"), ("text", "color")):
                    if rng.random() < .4:
                        mp[k] = {name: rng.choice(PALETTE)}
                if rng.random() < .4:
                    mp.setdefault("circle", {})["radius"] = rng.choice([.125, .25, .5])
                if rng.random() < .4:
                    mp.setdefault("text", {})["fontsize"] = rng.choice([5, 7])
                q["metaparams"] = mp
    rng.shuffle(qs)
    num = {q["qubit"]: n for n, q in enumerate(qs)}
    return Layout(d), qs, num


def space(i, rng, l):
    """Not every qubit is in the plane: there is no picture."""
    import matplotlib.pyplot as plt
    from surface_sim.layouts import Layout, plot

    d = l.to_dict()
    odd = rng.sample(d["layout"], rng.choice([1, 1, 2, len(d["layout"])]))
    for q in odd:
        q["coords"] = [*q["coords"], 0] if rng.random() < .6 else [q["coords"][0]]
    l = Layout(d)
    fig, ax = plt.subplots()
    try:
        plot(ax, l, add_labels=rng.random() < .5, add_patches=rng.random() < .5, add_connections=rng.random() < .5)
        raised = False
    except ValueError:
        raised = True
    finally:
        plt.close(fig)
    return dict(id=i, dims=[len(q["coords"]) for q in d["layout"]], raised=raised, items=[], kinds=[], name=[])


def one(arg):
    i, seed = arg

    def f():
        import matplotlib.pyplot as plt
        from surface_sim.layouts import plot

        rng = random.Random(seed)
        l, qs, num = a_layout(rng)
        if rng.random() < .08:
            return space(i, rng, l)
        own, sizes = [], []
        for n, q in enumerate(qs):
            for k, v in (q.get("metaparams") or {}).items():
                for name, x in v.items():
                    if name in ("color", "facecolor"):
                        own.append(dict(k=k, q=n + 1, col=x))
                    else:
                        sizes.append(dict(k=k, q=n + 1, r=size(x)))
        flags = dict(add_labels=rng.random() < .8, add_patches=rng.random() < .8, add_connections=rng.random() < .8)
        kw = dict(flags, pad=rng.choice([0, 1, 2.5]), stim_orientation=rng.random() < .5, label_fontsize=rng.choice([11, 6, 9]))
        default = dict(add_labels=True, add_patches=True, add_connections=True, pad=1, stim_orientation=True, label_fontsize=11)
        if rng.random() < .3:
            kw = {**default, **{k: x for k, x in kw.items() if rng.random() < .3}}
        given = {k: x for k, x in kw.items() if x != default[k] or rng.random() < .5}
        before = str(l.to_dict())
        fig, ax = plt.subplots()
        try:
            if rng.random() < .2:  # something else has been drawn there before
                plot(ax, zoo.layout("rot", 3, 3, point=(5, 5)))
            old = list(ax.get_children())
            got = plot(ax, l, **given)
            if got is not ax:
                raise ValueError("plot does not return the axes")
            items = [it for it in (item(a) for a in ax.get_children() if not any(a is b for b in old)) if it]
            lim = [grid(v) for v in (*ax.get_xlim(), *ax.get_ylim())]
            equal = ax.get_aspect() in ("equal", 1, 1.0)
        finally:
            plt.close(fig)
        if str(l.to_dict()) != before:
            raise ValueError("plot changes the layout")
        kinds = ["circle"] + [k for k, n in (("text", "add_labels"), ("patch", "add_patches"), ("line", "add_connections")) if kw[n]]
        cls = ["data" if q["role"] == "data" else q["stab_type"] for q in qs]
        return dict(id=i, dims=[len(q["coords"]) for q in qs], raised=False,
                    xy=[[grid(v) for v in q["coords"]] for q in qs], cls=cls, name=[q["qubit"] for q in qs],
                    nbr=[[] if c == "data" else [num[x] + 1 for x in q["neighbors"].values() if x is not None]
                         for q, c in zip(qs, cls)],
                    own=own, sizes=sizes, kinds=kinds, items=items, lim=lim, pad=grid(kw["pad"]), flip=kw["stim_orientation"],
                    size=size(kw["label_fontsize"]), equal=equal)

    return call(f, 60)


def body(c):
    n = 1200 if c.thorough else 200
    jobs = [(i, c.seed * 7919 + i) for i in range(n)]
    with ThreadPoolExecutor(1) as ex:
        mc = ex.submit(run_tlc, "DrawingModel", None, None, 2, 600)
        res = pmap(one, jobs, chunksize=4)
        r = mc.result()
    c.stats(dict(states=r.distinct, transitions=r.generated, traces=0))
    cases = []
    for (i, seed), (x, err) in zip(jobs, res):
        if err:
            c.violation("raised", dict(seed=seed, error=err))
        else:
            cases.append(x)
    for k in range(0, len(cases), 100):
        bad, st = validate("DrawingTrace", cases[k:k + 100], timeout=2000)
        c.stats(st)
        for i, (at, clause) in bad.items():
            x = next(y for y in cases if y["id"] == i)
            c.violation(clause, dict(item=x["items"][at - 1] if 0 < at <= len(x["items"]) else None, kinds=x["kinds"],
                                     labels=x["name"][:6], seed=jobs[i][1]))
    c.count("pictures", len(cases))
    c.count("items_judged", sum(len(x["items"]) for x in cases))
    if cases:
        c.sample(dict(qubits=len(cases[0]["xy"]), kinds=cases[0]["kinds"], items=len(cases[0]["items"])))


if __name__ == "__main__":
    import sys
    sys.exit(main("C20", body))
