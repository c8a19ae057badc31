"""C19: target points, and correspondences by identity."""
from common import *
import cvm
import lib as lib_

HARNESS = "c19.cpp"
OPENCV = True
SOURCES = ["img:modified_circle_grid_target.cpp", "img:aruco_grid_target.cpp", "img:charuco_grid_target.cpp", "img:aruco_finder.cpp", "img:charuco_finder.cpp"]
TRUSTED = ["OpenCV boards: the ids, corner points and dimensions that the board object holds"]
ASSUMPTIONS = [
    "marker ids of a board are distinct; float coordinates are exact when widened to double",
    "circle grid: no more features than circles (asserted by the code in debug builds)",
    "OpenCV detection returns distinct ids, each with its image points; which it finds in an image is covered by the bounded harness only",
]
NS = "rct_image_tools::"


def prove(ctx):
    prog = ctx.program(*SOURCES)

    def member(cls, name, k=0):
        return [f for f in prog.find(NS + cls + "::" + name) if f.get("body")][k]

    def circle(ip):
        r, c, s = var("rows", "I"), var("cols", "I"), var("spacing")
        return Struct(NS + "ModifiedCircleGridTarget", {"rows": r, "cols": c, "spacing": s}), r, c, s

    def points():
        L = "circle grid points"
        ip = ctx.interp(prog, {})
        this, r, c, s = circle(ip)
        pre = (le(1, r), le(1, c))
        for p in run_entry(ip, member("ModifiedCircleGridTarget", "createPoints"), [], Ref(ip.new(this, "this")), pre):
            pc = tuple(p.pc) + pre
            if p.kind == "throw":
                ctx.ob(L + ": no exception", pc, "bool", TRUE, FALSE)
                continue
            v = ip.load(p.val.val)
            ctx.ob(L + ": as many as circles", pc, "eq", v.length(), r * c)
            i, j = fresh("idx"), fresh("idx")
            q = pc + (le(0, i), lt(i, r), le(0, j), lt(j, c))
            x = v.at(i * c + j)
            for k, (n, w) in enumerate((("x", j * s), ("y", (r - 1 - i) * s), ("z", ZERO))):
                ctx.ob("%s: %s of the circle in row i and column j" % (L, n), q, "eq", x.at(k, 0), w)

    FEAT = clean(prog.param_types(member("ModifiedCircleGridTarget", "createCorrespondences"))[0]).replace("const ", "").replace(" &", "").strip()

    def features(ip):
        """any set of features: distinct ids, each with any number of observations"""
        return sym(ip, FEAT, "feat")

    def thrown(p):
        return getattr(p.val, "ty", "")

    def obs(fm, key):
        return fm.base.val(key)

    def circle_pairs():
        L = "circle grid correspondences"
        ip = ctx.interp(prog, {})
        this, r, c, s = circle(ip)
        fm = features(ip)
        n = r * c
        k = fresh("idx")
        pre = (le(1, r), le(1, c))
        have = lambda i: band(fm.base.has(num(i)), le(1, obs(fm, num(i)).length()))
        for p in run_entry(ip, member("ModifiedCircleGridTarget", "createCorrespondences"), [Ref(ip.new(fm, "feat"))], Ref(ip.new(this, "this")), pre):
            pc = tuple(p.pc) + pre
            if p.kind == "throw":
                ctx.ob(L + ": refused only when a circle has no feature", pc, "bool", quant("all", n, have), FALSE)
                ctx.ob(L + ": the exception is a std::out_of_range", pc, "bool", bconst("out_of_range" in thrown(p)), TRUE)
                continue
            ctx.ob(L + ": a missing feature is refused", pc, "bool", quant("all", n, have), TRUE)
            v = ip.load(p.val.val)
            ctx.ob(L + ": one per circle", pc, "eq", v.length(), n)
            i, j = fresh("idx"), fresh("idx")
            q = pc + (le(0, i), lt(i, r), le(0, j), lt(j, c))
            at = i * c + j
            x = v.at(at)
            for a, w in enumerate((j * s, (r - 1 - i) * s, ZERO)):
                ctx.ob("%s: target point of circle (i, j) (%d)" % (L, a), q, "eq", x.f["in_target"].at(a, 0), w)
            o = obs(fm, at).at(ZERO)
            for a in range(2):
                ctx.ob("%s: image point of circle (i, j) is feature i * cols + j (%d)" % (L, a), q, "eq", x.f["in_image"].at(a, 0), o.at(a, 0))

    def map_target(ip, cls):
        r = prog.records[NS + cls]
        t = [r["tu"].types[f["t"]] for f in r["fields"] if f["n"] == "points"][0]
        return Struct(NS + cls, {"board": NULL, "points": sym(ip, t, "points")})

    def by_id(cls, L, corners):
        ip = ctx.interp(prog, {})
        this = map_target(ip, cls)
        fm, pts = features(ip), this.f["points"]
        n = fm.base.size
        key = lambda i: fm.base.key(num(i))
        if corners:
            good = lambda i: quant("all", obs(fm, key(i)).length(), lambda j: band(pts.base.has(key(i)), lt(j, pts.base.val(key(i)).length())))
        else:
            good = lambda i: band(pts.base.has(key(i)), le(1, obs(fm, key(i)).length()))
        for p in run_entry(ip, member(cls, "createCorrespondences"), [Ref(ip.new(fm, "feat"))], Ref(ip.new(this, "this"))):
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob(L + ": refused only when a feature has no counterpart", pc, "bool", quant("all", n, good), FALSE)
                ctx.ob(L + ": the exception is a std::out_of_range", pc, "bool", bconst("out_of_range" in thrown(p)), TRUE)
                continue
            ctx.ob(L + ": a feature without counterpart is refused", pc, "bool", quant("all", n, good), TRUE)
            v = ip.load(p.val.val)
            tgt = lambda i, j: (pts.base.val(key(i)).at(j) if corners else pts.base.val(key(i)))
            pair = lambda i, j: Struct("rct_optimizations::Correspondence<2, 3>", {"in_image": obs(fm, key(i)).at(j), "in_target": tgt(i, j)})
            want = Seq([Gen(n, lambda i: Seq([Fun(obs(fm, key(i)).length(), lambda j: pair(i, j))]))]) if corners else Seq([Fun(n, lambda i: pair(i, ZERO))])
            ctx.obs_eq(L, v, want, pc)

    def ctors(cls, L):
        fs = [f for f in prog.find(NS + cls + "::" + cls) if f.get("body") and not f.get("defaulted") and not f.get("copymove")]
        aruco = cls.startswith("Aruco")
        bc = "cv::aruco::" + ("GridBoard" if aruco else "CharucoBoard")

        def points_of(ip, t, pc, L):
            b = ip.load(ip.deref(t.f["board"]))
            m = t.f["points"]
            k = fresh("idx")
            ids = b.f["ids"] if aruco else None
            n = ids.length() if aruco else b.f["chessboardCorners"].length()
            q = pc + (le(0, k), lt(k, n))
            found, v = lib_.map_lookup(ip, m, ids.at(k) if aruco else k)
            ctx.ob(L + ": every id of the board has its points", q, "bool", found, TRUE)
            if v is None:
                return
            ctx.ob(L + ": as many entries as the board has ids", pc, "eq", m.ents.length(), n)
            want = b.f["objPoints"].at(k) if aruco else Seq([Items([b.f["chessboardCorners"].at(k)])])
            got = v if aruco else Seq([Items([v])])
            ctx.ob(L + ": number of points of an id", q, "eq", got.length(), want.length())
            j = fresh("idx") if aruco else ZERO
            q += (le(0, j), lt(j, want.length()))
            for c, w in enumerate("xyz"):
                ctx.ob("%s: point j of id k is that of the board (%s)" % (L, w), q, "eq", got.at(j).at(c, 0), want.at(j).f[w])

        for f in fs:
            ip = ctx.interp(prog, {})
            if len(f["params"]) == 1:
                bd = Ptr(ip.new(cvm.board(ip, bc, "board"), "keep:board"))
                a, LL = [Ref(ip.new(bd, "board_in"))], L + " of a board"
            else:
                a = [var("rows", "I"), var("cols", "I"), var("len1"), var("len2"), var("dict", "I")]
                LL = L + " of dimensions"
            this = ip.new(ip.default_struct(NS + cls), "this")
            for p in run_entry(ip, f, a, Ref(this)):
                pc = tuple(p.pc)
                if p.kind == "throw":
                    ctx.ob(LL + ": no exception", pc, "bool", TRUE, FALSE)
                    continue
                ip.mem = p.mem
                t = ip.load(Ref(this))
                if len(f["params"]) == 1:
                    ctx.ob(LL + ": holds that board", pc, "bool", bconst(same(t.f["board"], bd)), TRUE)
                else:
                    b = ip.load(ip.deref(t.f["board"]))
                    l1, l2 = ("markerLength", "markerSeparation") if aruco else ("squareLength", "markerLength")
                    for n, x, w in (("columns", b.f["size"].f["width"], a[1]), ("rows", b.f["size"].f["height"], a[0]), (l1, b.f[l1], a[2]), (l2, b.f[l2], a[3]), ("dictionary", b.f["dictionary"], app("dictionary", (a[4],), "I"))):
                        ctx.ob("%s: %s" % (LL, n), pc, "eq", num(x), num(w))
                points_of(ip, t, pc, LL)

    def finder(cls, tcls, L):
        f = member(cls, "findTargetFeatures")
        ip = ctx.interp(prog, {})
        bc = "cv::aruco::" + ("GridBoard" if tcls.startswith("Aruco") else "CharucoBoard")
        bd = Ptr(ip.new(cvm.board(ip, bc, "board"), "keep:board"))
        this = ip.new(Struct(NS + cls, {"target_": Struct(NS + tcls, {"board": bd, "points": NULL})}), "this")
        img = Ref(ip.new(Struct("cv::Mat", {"id": var("image", "I")}), "image"))
        aruco = tcls.startswith("Aruco")
        for p in run_entry(ip, f, [img], Ref(this)):
            pc = tuple(p.pc)
            ip.mem = p.mem
            if p.kind == "throw":
                ctx.ob(L + ": an exception only without markers", pc, "bool", eq(cvm.markers("detected")[1].length(), 0), TRUE)
                continue
            ctx.ob(L + ": looks for the markers of the dictionary of its board", pc, "bool", bconst(len(ip.detect_log) >= 1 and same(ip.detect_log[-1][1], var("board.dict", "I"))), TRUE)
            m = ip.load(p.val.val)
            if aruco:
                c, ids = cvm.markers("refined")
            else:
                n, c, ids = cvm.corners()
            k = fresh("idx")
            ctx.ob(L + ": as many features as detections", pc, "eq", m.ents.length(), ids.length())
            q = pc + (le(0, k), lt(k, ids.length()))
            found, v = lib_.map_lookup(ip, m, ids.at(k))
            ctx.ob(L + ": every detected id has its feature", q, "bool", found, TRUE)
            want = c.at(k) if aruco else Seq([Items([c.at(k)])])
            ctx.ob(L + ": number of image points of a feature", q, "eq", v.length(), want.length())
            j = fresh("idx")
            q += (le(0, j), lt(j, want.length()))
            for a, w in enumerate("xy"):
                ctx.ob("%s: image point j of id k is that of the detection (%s)" % (L, w), q, "eq", v.at(j).at(a, 0), want.at(j).f[w])

    def equal(cls, L):
        f = member(cls, "operator==")
        ip = ctx.interp(prog, {})
        if cls.startswith("Mod"):
            t = [Struct(NS + cls, {"rows": var("r" + x, "I"), "cols": var("c" + x, "I"), "spacing": var("s" + x)}) for x in "ab"]
            tiny = num(2.0 ** -52)
            d = t[0].f["spacing"] - t[1].f["spacing"]
            want = band(eq(t[0].f["rows"], t[1].f["rows"]), eq(t[0].f["cols"], t[1].f["cols"]), lt(-tiny, d), lt(d, tiny))
        else:
            return
        for p in run_entry(ip, f, [Ref(ip.new(t[1], "other"))], Ref(ip.new(t[0], "this"))):
            ctx.ob(L + ": equal exactly if of the same dimensions", tuple(p.pc), "bool", ip.tob(p.val.val) if p.kind != "throw" else FALSE, want)

    ctx.run("aruco finder", lambda: finder("ArucoGridBoardTargetFinder", "ArucoGridTarget", "ArUco finder"))
    ctx.run("charuco finder", lambda: finder("CharucoGridBoardTargetFinder", "CharucoGridTarget", "ChArUco finder"))
    ctx.run("equality", lambda: equal("ModifiedCircleGridTarget", "circle grid equality"))
    ctx.run("points", points)
    ctx.run("aruco", lambda: ctors("ArucoGridTarget", "ArUco target"))
    ctx.run("charuco", lambda: ctors("CharucoGridTarget", "ChArUco target"))
    ctx.run("circle pairs", circle_pairs)
    ctx.run("aruco pairs", lambda: by_id("ArucoGridTarget", "ArUco correspondences", True))
    ctx.run("charuco pairs", lambda: by_id("CharucoGridTarget", "ChArUco correspondences", False))
