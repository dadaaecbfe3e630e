"""C21: movies of all enumerated sets of increments, options, earlier contents of the
output folder and sequences of movies are written in a scratch directory; every picture
and every frame of the GIF is identified by comparison with pictures of the increments."""
import copy
import io
import itertools
import os
import shutil
import sys
import tempfile
from unittest import mock

import numpy as np

from mc.core import Outcome, Violation, h64
from mc.runs import records, same_records

PROPERTY = "C21"
RULE = (
    "one case = model x options x history of movies (sets of increments) x earlier content "
    "of the folder; a transition is one frame written and identified, a state the content "
    "of the folder after a movie"
)
ASSUMPTIONS = [
    "the model picture of an increment is right (C19): frames are identified with it",
    "results with more than 12 increments are made by repeating stored results",
]
BOUND = {
    "quick": "all 15 subsets of 4 increments in up to 3 orders/forms, negative increments, 4 views x 4 contours, 9 earlier contents, pairs of movies, increment numbers around 10, 100, 1000, 10000; one movie of 270 frames",
    "thorough": "also all permutations of all subsets of 4 increments, all sequences of 3 movies over 4 sets, 120 and 1030 increments in one movie, all contents x views",
}
CHUNK = 1

INC4 = [1, 2, 3, 4]
STALE = ["none", "empty", "png", "png+gif", "stray", "nested", "bigger", "gifonly", "mixed"]


def cases(tier):
    q = tier == "quick"
    sets = [list(s) for L in range(1, 5) for s in itertools.combinations(INC4, L)]
    for s in sets:
        yield ["vm2", "xz", None, "none", [["list", s]], 4]
        if len(s) > 1:
            yield ["vm2", "xz", None, "none", [["list", s[::-1]]], 4]
    for form in ("tuple", "array", "range", "all"):
        yield ["vm2", "xy", None, "none", [[form, INC4]], 4]
    for s in ([0], [0, 3], [-1], [-1, -2], [-4], [-4, -5], [-5, 2], [-1, 1], [-3, -1, 2], [-1, 4], [2, 2], [3, 1, 2, 1]):
        yield ["vm2", "xz", None, "none", [["list", s]], 4]
    for n in (1, 2, 3, 11):
        yield ["vm2", "xz", None, "png", [["all", None]], n]
    for view in ("xz", "xy", "yz", "3d"):
        for cont in (None, "force", "stretch", ["stress", [-0.2, 0.1]]):
            yield ["tri2", view, cont, "none", [["list", [1, 4]]], 4]
    for st in STALE:
        yield ["vm2", "xz", None, st, [["list", [1, 3]]], 4]
        if not q:
            yield ["tri2", "3d", "force", st, [["all", None]], 3]
    A = [["list", [1, 2, 3, 4]], ["list", [2]], ["list", [4, 1]], ["all", None]]
    for a, b in itertools.permutations(A, 2):
        yield ["vm2", "xz", None, "none", [a, b], 4]
    for s in ([9, 10], [8, 9, 10, 11], [99, 100], [2, 10, 100], [998, 999, 1000, 1001], [1, 1000], [999, 9999, 10000], [10000, 9]):
        yield ["vm2", "xz", None, "none", [["list", s]], max(s)]
    yield ["long", 270 if q else 1030]
    if not q:
        for s in sets:
            for p in itertools.permutations(s):
                yield ["vm2", "xz", None, "bigger", [["list", list(p)]], 4]
        for t in itertools.product(A, repeat=3):
            yield ["vm2", "xz", None, "none", list(t), 4]
        yield ["vm2", "xz", None, "png", [["all", None]], 120]
        for s in itertools.combinations([1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001], 3):
            yield ["vm2", "xz", None, "none", [["list", list(s)]], max(s)]


CPU_LIMIT = dict(quick=120.0, thorough=400.0)

# ---------------------------------------------------------------- containment
_ROOT = [None]


def _hook(event, args):
    if _ROOT[0] is None or event not in ("shutil.rmtree", "os.remove", "os.rmdir", "os.rename", "shutil.move"):
        return
    p = args[0]
    if isinstance(p, (str, bytes)) and not os.path.isabs(p) and len(args) > 1 and isinstance(args[-1], int) and args[-1] != -1:
        return  # relative to a directory that is itself being removed
    r = os.path.realpath(os.fsdecode(p))
    if not r.startswith(_ROOT[0] + os.sep):
        raise PermissionError("removal outside of the scratch directory: " + r)


_HOOKED = []


def stale(kind):
    if kind == "none":
        return
    os.makedirs("figures/png")
    px = b"\x89PNG\r\n\x1a\n"
    if kind == "empty":
        shutil.rmtree("figures/png")
    if kind in ("png", "png+gif"):
        from PIL import Image

        for n in ("fig_000", "fig_002", "fig_007", "frame", "a"):
            Image.new("RGB", (16, 12), (200, 10, 10)).save("figures/png/%s.png" % n)
    if kind in ("png+gif", "gifonly"):
        os.makedirs("figures/gif")
        from PIL import Image

        Image.new("RGB", (16, 12), (200, 10, 10)).save("figures/gif/movie.gif")
        Image.new("RGB", (16, 12), (200, 10, 10)).save("figures/gif/old.gif")
    if kind == "stray":
        open("figures/notes.txt", "w").write("x")
        open("figures/png/notes.txt", "w").write("x")
        open("figures/png/Thumbs.db", "wb").write(px)
    if kind == "nested":
        os.makedirs("figures/png/deep/er")
        open("figures/png/deep/er/fig_001.png", "wb").write(px)
        os.makedirs("figures/gif/x")
    if kind == "mixed":
        # all of it at once, beside files and folders of others
        from PIL import Image

        os.makedirs("figures/gif")
        os.makedirs("figures/other/png")
        open("figures/notes.txt", "w").write("x")
        open("figures/report.pdf", "wb").write(b"%PDF-1.4")
        for n in ("fig_000", "fig_002", "fig_100", "x"):
            Image.new("RGB", (16, 12), (200, 10, 10)).save("figures/png/%s.png" % n)
            Image.new("RGB", (16, 12), (200, 10, 10)).save("figures/%s.png" % n)
        Image.new("RGB", (16, 12), (200, 10, 10)).save("figures/gif/movie.gif")
    if kind == "bigger":
        from PIL import Image

        for i in range(1, 9):
            Image.new("RGB", (16, 12), (10, 10, 200)).save("figures/png/fig_%03d.png" % i)
            Image.new("RGB", (16, 12), (10, 10, 200)).save("figures/png/fig_%d.png" % i)


_M = {}


def the_model(name, nres):
    import trusspy as tp

    from mc.runs import execute
    from mc.structures import S

    key = (name, min(nres, 12))
    if key not in _M:
        if name == "vm2":
            spec = S("vm2", incs=min(nres, 12), du=0.1, dlpf=0.05)
        else:
            spec = S("nta", incs=min(nres, 12), du=0.1, dlpf=0.01)
        _M[key] = execute(tp, spec)[0]
    M = copy.copy(_M[key])
    if nres > 12:
        M.Results = copy.copy(M.Results)
        R = list(M.Results.R)
        base = R[1:]
        while len(R) <= nres:
            R.append(base[(len(R) - 1) % len(base)])
        M.Results.R = R
    return M


def picture(M, inc, view, cont, dpi=200):
    import matplotlib.pyplot as plt
    from PIL import Image

    plt.close("all")
    fig, ax = M.plot_model(inc=inc, **options(view, cont))
    b = io.BytesIO()
    fig.savefig(b, dpi=dpi)
    plt.close("all")
    b.seek(0)
    return img(Image.open(b))


def resolution(M, view, cont, files):
    "the resolution of the pictures written (no property fixes it)"
    from PIL import Image

    for f in files:
        with Image.open(f) as g:
            w = g.size[0]
        return 200.0 * w / picture(M, 1, view, cont).shape[1]
    return 200


def img(f, size=None):
    a = f.convert("RGB")
    if size is not None and a.size != size:
        a = a.resize(size)
    return np.asarray(a, dtype=np.int16)


def options(view, cont):
    cont = tuple(cont) if isinstance(cont, list) else cont
    return dict(view=view, contour=cont, lim_scale=1.3, force_scale=0.4, nodesize=12)


def dist(a, b):
    return float(np.abs(a - b).mean())


def identify(a, refs):
    return min(refs, key=lambda i: dist(a, refs[i]))


def run(case):
    if not _HOOKED:
        sys.addaudithook(_hook)
        _HOOKED.append(1)
    cwd = os.getcwd()
    top = os.path.realpath(tempfile.mkdtemp(prefix="mc_movie_"))
    work = os.path.join(top, "a", "b", "work")
    os.makedirs(work)
    o = Outcome()
    try:
        os.chdir(work)
        _ROOT[0] = top
        (long_movie if case[0] == "long" else movies)(case, o)
    finally:
        _ROOT[0] = None
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)
        import matplotlib.pyplot as plt

        plt.close("all")
    o.trace()
    o.sample = dict(case=case)
    return o


def long_movie(case, o):
    "many frames of small pictures: all are counted, every 15th and the last ones identified"
    import matplotlib as mpl
    from PIL import Image

    M = the_model("vm2", case[1])
    n = len(M.Results.R)
    want = list(range(1, n))
    opt = options("xz", None)
    from matplotlib.figure import Figure

    with mpl.rc_context({"figure.figsize": (1.5, 1.2)}), mock.patch.object(Figure, "set_size_inches", lambda self, *a, **k: None):
        M.plot_movie(**opt)
        files = os.listdir("figures/png")
        if len(files) != len(want):
            raise Violation("the folder does not hold exactly one picture per requested increment", got=len(files), want=len(want))
        gifs = [os.path.join(d, f) for d, _, fs in os.walk("figures") for f in fs if f.endswith(".gif")]
        if len(gifs) != 1:
            raise Violation("there is not exactly one movie", got=gifs)
        with Image.open(gifs[0]) as g:
            if g.n_frames != len(want):
                raise Violation("the movie does not have one frame per increment", got=g.n_frames, want=len(want))
            dpi = resolution(M, "xz", None, ["figures/png/" + f for f in files[:1]])
            for k in sorted({*range(0, len(want), 15), len(want) - 2, len(want) - 1}):
                g.seek(k)
                refs = {i: picture(M, i, "xz", None, dpi) for i in (want[k] - 1, want[k], want[k] + 1, want[k] + 2) if i < n}
                size = refs[want[k]].shape[1::-1]
                i = identify(img(g, size), refs)
                if i != want[k]:
                    raise Violation("a frame shows another increment", frame=k, nearest=i, want=want[k])
                o.step()
    o.states.add(h64("long", n))
    o.outcomes.add(("long", n))


def movies(case, o):
    from PIL import Image, ImageSequence

    name, view, cont, st, seq, nres = case
    M = the_model(name, nres)
    n = len(M.Results.R)
    if n != nres + 1:
        raise RuntimeError("the model of the check has %d results" % n)
    before = records(M) if n < 20 else None
    stale(st)
    refs = {}
    for form, incs in seq:
        if form == "all":
            arg, want = "all", list(range(1, n))
        else:
            arg = dict(list=list, tuple=tuple, array=np.array, range=lambda s: range(min(s), max(s) + 1))[form](incs)
            want = sorted({i if i >= 0 else n + i for i in incs})
        keep = copy.deepcopy(arg)
        M.plot_movie(incs=arg, **options(view, cont))
        if repr(keep) != repr(arg):
            raise Violation("the increments passed in are changed", got=arg)
        tag = dict(increments=incs, movie=seq, earlier=st)
        # candidates: requested ones and their neighbours, all for small results
        cand = set(want) | {i for w in want for i in (w - 1, w + 1) if 0 <= i < n}
        if n > 30 and len(want) > 30:
            cand = set(want)
        if n <= 6:
            cand = set(range(n))
        files = sorted(os.listdir("figures/png"))
        pngs = [f for f in files if f.endswith(".png")]
        dpi = resolution(M, view, cont, ["figures/png/" + f for f in pngs[:1]])
        for i in sorted(cand):
            if i not in refs:
                refs[i] = picture(M, i, view, cont, dpi)
        size = next(iter(refs.values())).shape[1::-1]
        if len(pngs) != len(want) or len(files) != len(pngs):
            raise Violation("the folder does not hold exactly one picture per requested increment", files=files, want=want, **tag)
        got = []
        for f in pngs:
            a = Image.open("figures/png/" + f)
            same_size = a.size == size and abs(dpi - 200) < 1
            a = img(a, size)
            i = identify(a, refs)
            if same_size and dist(a, refs[i]) > 0.05:
                raise Violation("a picture is none of the requested increments", file=f, nearest=i, **tag)
            got.append(i)
            o.step()
        if sorted(got) != want:
            raise Violation("the pictures do not show the requested increments", got=sorted(got), want=want, **tag)
        gifs = []
        for d, _, fs in os.walk("figures"):
            gifs += [os.path.join(d, f) for f in fs if f.endswith(".gif")]
        if len(gifs) != 1:
            raise Violation("there is not exactly one movie", got=gifs, **tag)
        rest = []
        for d, _, fs in os.walk("figures"):
            rest += [os.path.join(d, f) for f in fs if f.endswith((".png", ".gif"))]
        if len(rest) != len(pngs) + 1:
            raise Violation("pictures of an earlier movie survive", got=rest, **tag)
        with Image.open(gifs[0]) as g:
            fr = [img(f, size) for f in ImageSequence.Iterator(g)]
        order = [identify(a, refs) for a in fr]
        if order != want:
            raise Violation("the frames of the movie are not the requested increments in ascending order", got=order, want=want, **tag)
        o.step(len(fr))
        o.states.add(h64(name, view, str(cont), tuple(order), st))
        o.outcomes.add((name, view, len(order)))
        if before is not None:
            same_records(before, records(M), 0.0, what="writing a movie changes the results")
