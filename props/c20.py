"""C20: features of the modified circle grid in the order of the target's points."""
from common import *
import cvm
import lib as lib_
import loops
import terms as T_

HARNESS = "c20.cpp"
OPENCV = True
SOURCES = ["img:modified_circle_grid_finder.cpp", "img:modified_circle_grid_target.cpp", "img:circle_detector.cpp"]
TRUSTED = ["cv::findCirclesGrid: the centres of a pattern row by row from any of its corners, never mirrored; nothing when not found"]
ASSUMPTIONS = [
    "the sizes of the centres are proved as what any one keypoint does to any sizes, and the order of the features for any sizes; the keypoints that the detector returns are arbitrary",
]
NS = "rct_image_tools::"
KP = "std::vector<cv::KeyPoint, std::allocator<cv::KeyPoint>>"


def prove(ctx):
    prog = ctx.program(SOURCES[0])
    f = [g for g in prog.find(NS + "ModifiedCircleGridTargetFinder::findTargetFeatures") if g.get("body")][0]

    def world(case):
        ip = ctx.interp(prog, {})
        ip.widen = 0
        n = [0]

        def detect(ip, q, fref, obj, args, node):
            ip.widen += 1
            n[0] += 1
            cvm.assign(ip, args[1], sym(ip, KP, "keypoints%d" % n[0]))
            return None

        calls = []

        def grid(ip, q, fref, obj, args, node):
            """found iff the requested pattern is the one of the case"""
            sz = ip.load(args[1])
            w, h = sz.f["width"], sz.f["height"]
            k = getattr(ip, "calls", 0)
            ip.calls = k + 1
            calls.append((w, h))
            if case == "none" or (case == "flipped" and (w, h) == (rows0, cols0)[::-1]):
                cvm.assign(ip, args[2], Seq([], "cv::Point_<double>"))
                return FALSE
            cvm.assign(ip, args[2], Seq([Fun(w * h, P)], "cv::Point_<double>"))
            return TRUE

        ip.libhooks = {}
        H = lib_.LIBHOOK
        H["cv::Feature2D::detect"] = detect
        H[NS + "CircleDetector::detect"] = detect
        H["cv::findCirclesGrid"] = grid
        H["cv::Mat::convertTo"] = lambda ip, q, fref, obj, args, node: None
        H[NS + "CircleDetector::create"] = lambda ip, q, fref, obj, args, node: Ptr(ip.new(Struct(NS + "CircleDetector", {}), "keep:det"))
        return ip, calls

    rows0, cols0 = var("rows", "I"), var("cols", "I")
    P = lambda k: Struct("cv::Point_<double>", {c: app("centre." + c, (num(k),)) for c in "xy"})

    def run(case, square):
        ip, calls = world(case)
        rows, cols = rows0, (rows0 if square else cols0)
        tgt = Struct(NS + "ModifiedCircleGridTarget", {"rows": rows, "cols": cols, "spacing": var("spacing")})
        this = ip.default_struct(NS + "ModifiedCircleGridTargetFinder")
        this = Struct(this.ty, dict(this.f, target_=tgt))
        img = ip.new(Struct("cv::Mat", {}), "image")
        pre = (le(2, rows), le(2, cols))
        C = rows if case == "flipped" else cols  # columns of the pattern that was found
        n = rows * cols
        corner = {"first": ZERO, "end of first": C - 1, "start of last": n - C, "last": n - 1}
        side = {"first": (1, C), "end of first": (-1, C), "start of last": (1, -C), "last": (-1, -C)}
        # row-by-row position, in what was found, of the circle in row i and column j of the target, by the corner at which its origin is
        quarter = {"first": lambda i, j: j * C + (rows - 1 - i), "last": lambda i, j: (cols - 1 - j) * C + i}
        half = {"start of last": lambda i, j: i * C + j, "end of first": lambda i, j: n - 1 - (i * C + j)}
        turns = dict(half, **quarter) if square else quarter if case == "flipped" else half
        X, Y = (lambda k: P(k).f["x"]), (lambda k: -P(k).f["y"])
        a, b, c = corner["start of last"], corner["last"], corner["end of first"]
        cross = (X(b) - X(a)) * (Y(c) - Y(b)) - (Y(b) - Y(a)) * (X(c) - X(b))
        L = {"regular": "same rows and columns", "flipped": "rows and columns exchanged", "none": "nothing found"}[case] + (", square" if square else "")
        for p in run_entry(ip, f, [Ref(img)], Ref(ip.new(this, "this")), pre):
            pc = tuple(p.pc) + pre
            if case == "none":
                ctx.ob(L + ": refused", pc, "bool", bconst(p.kind == "throw"), TRUE)
                continue
            pc += (lt(0, cross),)
            sz = sizes(ip, p)
            if sz is None:
                if p.kind != "throw":  # a refusal before the sizes are known: the centres do not match the keypoints
                    raise Unsupported("the order does not depend on sizes of the centres")
                continue
            if L not in sized:
                sized.add(L)
                one_size(ip, p, L)
            rel = {k: (sz(at) / sz(at + side[k][0]) + sz(at) / sz(at + side[k][1])) / 2 for k, at in corner.items()}
            for k in turns:
                big = pc + tuple(lt(rel[o], rel[k]) for o in corner if o != k)
                LL = "%s, large circle at the %s position" % (L, k)
                if p.kind == "throw":
                    ctx.ob(LL + ": not refused", big, "bool", TRUE, FALSE)
                    continue
                m = ip.load(p.val.val)
                ctx.ob(LL + ": one feature per circle", big, "eq", m.ents.length(), n)
                i, j = fresh("idx"), fresh("idx")
                q = big + (le(0, i), lt(i, rows), le(0, j), lt(j, cols))
                found, v = lib_.map_lookup(ip, m, i * cols + j)
                ctx.ob(LL + ": every circle has a feature", q, "bool", found, TRUE)
                if v is None:
                    continue
                ctx.ob(LL + ": one observation per feature", q, "eq", v.length(), ONE)
                w = P(turns[k](i, j))
                for ax, x in enumerate("xy"):
                    ctx.ob("%s: feature i * cols + j is the centre of circle (i, j) (%s)" % (LL, x), q, "eq", v.at(ZERO).at(ax, 0), w.f[x])

    sized = set()

    def one_size(ip, p, L):
        """one pass over the keypoints gives centres their sizes: what any keypoint does to any sizes"""
        for loc, path, init, ph, post, t, N, v in getattr(ip, "steps", []):
            kp = [w for w in p.mem.values() if isinstance(w, Seq) and w.segs and isinstance(w.at(t), Struct) and w.at(t).ty == "cv::KeyPoint" and w.length() == N]
            if not (kp and isinstance(v, Seq) and isinstance(v.at(t), E)):
                continue
            e = kp[-1].at(t)
            far = lambda j: bor(*[le(1, T_.eabs(P(j).f[c] - e.f["pt"].f[c])) for c in "xy"])
            m, k = fresh("idx"), fresh("idx")
            n = ph.length()
            q = tuple(p.pc) + (le(0, t), lt(t, N), le(0, m), lt(m, n), le(0, k), lt(k, n))
            apart = quant("all", n, lambda j: bor(eq(j, m), far(j)))
            at = tuple(eq(P(m).f[c] - e.f["pt"].f[c], 0) for c in "xy")
            ctx.ob(L + ": a keypoint gives its size to the centre at which it lies", q + at + (apart,), "eq", post.at(m), e.f["size"])
            ctx.ob(L + ": a keypoint leaves the other sizes", q + at + (apart, bnot(eq(k, m))), "eq", post.at(k), ph.at(k))
            ctx.ob(L + ": a keypoint far from all centres leaves all sizes", q + (quant("all", n, far),), "eq", post.at(k), ph.at(k))
            return

    def sizes(ip, p):
        """the sizes of the centres on which the path depends"""
        names = set()
        for q in p.pc:
            loops._names(q, set(), names)
        for loc, path, v in getattr(ip, "widened", []):
            if isinstance(v, Seq) and isinstance(v.at(fresh("idx")), E):
                mine = set()
                loops._names(v.at(fresh("idx")), set(), mine)
                if mine & names:
                    return lambda k: v.at(num(k))
        return None

    for case, sq in (("none", False), ("regular", False), ("regular", True), ("flipped", False)):
        ctx.run("%s %s" % (case, sq), lambda: run(case, sq))
