"""C21: circle detector: thresholds, filters, ellipse error, grouping and averaging."""
from common import *
import cvm
import lib as lib_
import loops
import math
import terms as T_
from terms import sqrt, sin, cos

HARNESS = "c21.cpp"
OPENCV = True
SOURCES = ["img:circle_detector.cpp"]
TRUSTED = ["OpenCV image operations (threshold, findContours, moments, arcLength, convexHull, contourArea, fitEllipse) return some function of their arguments"]
ASSUMPTIONS = [
    "the ellipse error of a circle is not exactly 0 (its confidence would be infinite); float coordinates are exact when widened to double",
    "the grouping is proved as the transformation of the groups by one circle (any groups, any circle), iterated over circles and levels",
]
H = lib_.LIBHOOK
NS = "rct_image_tools::"
AN = "(anonymous namespace)::"
S = lambda t, **k: Struct(t, k)


W, HT = var("image.w", "I"), var("image.h", "I")


def mat(**k):
    return Struct("cv::Mat", dict(dict(image=ZERO, level=ZERO, maxval=ZERO, type=ZERO), **k, size=Struct("cv::MatSize", {}), rows=HT, cols=W))


def key_of(v):
    """(threshold, index) of the contour that a value holds, or of its hull"""
    if isinstance(v, Struct) and v.ty == "cv::ref":
        raise Unsupported("reference")
    if isinstance(v, Struct) and "of" in v.f:
        v = v.f["of"]
    a = the_atom(v.at(ZERO).f["x"])
    return a.args[0], a.args[1][:-1]


def install():
    def deref(ip, a):
        v = ip.load(a)
        while isinstance(v, Struct) and v.ty == "cv::ref":
            v = ip.load(ip.deref(v.f["of"]) if isinstance(v.f["of"], Ptr) else v.f["of"])
        return v

    def threshold(ip, q, fref, obj, args, node):
        a = [deref(ip, x) for x in args]
        ip.thr_log = getattr(ip, "thr_log", []) + [a]
        cvm.assign(ip, args[1], mat(level=num(a[2]), image=a[0].f.get("image", ZERO), maxval=num(a[3]), type=num(a[4])))
        return num(a[2])

    def contours(ip, q, fref, obj, args, node):
        m = deref(ip, args[0])
        lv, im = m.f["level"], m.f["image"]
        pt = lambda k, j: S("cv::Point_<int>", x=app("px.x", (im, lv, num(k), num(j)), "I"), y=app("px.y", (im, lv, num(k), num(j)), "I"))
        cvm.assign(ip, args[1], Seq([Fun(app("len:contours", (im, lv), "I"), lambda k: Seq([Fun(app("len:contour", (im, lv, num(k)), "I"), lambda j: pt(k, j))], "cv::Point_<int>"))], "std::vector<cv::Point_<int>>"))
        return None

    def fn(name, sort="R"):
        def h(ip, q, fref, obj, args, node):
            k, a = key_of(deref(ip, args[0]))
            return app(name + ":" + k, a, sort)

        return h

    def moments(ip, q, fref, obj, args, node):
        k, a = key_of(deref(ip, args[0]))
        return Struct("cv::Moments", {n: app(("area:" if n == "m00" else n + ":") + k, a) for n in ("m00", "mu11", "mu20", "mu02", "m10", "m01")})

    def hull(ip, q, fref, obj, args, node):
        k, a = key_of(deref(ip, args[0]))
        cvm.assign(ip, args[1], Seq([Fun(app("len:hull", a, "I"), lambda j: S("cv::Point_<int>", **{c: app("hull." + c, a + (num(j),), "I") for c in "xy"}))], "cv::Point_<int>"))

    def ellipse(ip, q, fref, obj, args, node):
        k, a = key_of(deref(ip, args[0]))
        e = lambda n: app("ellipse." + n, a)
        return S("cv::RotatedRect", center=S("cv::Point_<float>", x=e("x"), y=e("y")), size=S("cv::Size_<float>", width=e("w"), height=e("h")), angle=e("angle"))

    def pixel(ip, q, fref, obj, args, node):
        m = ip.load(obj)
        a = [ip.load(x) for x in args]
        yx = (a[0].f["y"], a[0].f["x"]) if len(a) == 1 else (num(a[0]), num(a[1]))
        ip.pixel_log = getattr(ip, "pixel_log", []) + [(tuple(ip.pc), yx)]
        return app("pixel", (m.f["image"], m.f["level"]) + yx, "I")

    H["cv::threshold"] = threshold
    H["cv::findContours"] = contours
    H["cv::cvtColor"] = lambda ip, q, fref, obj, args, node: cvm.assign(ip, args[1], mat(image=num(app("gray", (deref(ip, args[0]).f.get("image", ZERO),), "I")), level=deref(ip, args[0]).f.get("level", ZERO)))
    H["cv::moments"] = moments
    H["cv::arcLength"] = fn("perimeter")
    H["cv::contourArea"] = fn("area")
    H["cv::convexHull"] = hull
    H["cv::fitEllipse"] = ellipse
    H["cv::Mat::at"] = pixel
    H["cv::Mat::clone"] = lambda ip, q, fref, obj, args, node: ip.load(obj)
    H["cv::Scalar_::all"] = lambda ip, q, fref, obj, args, node: Struct("cv::Scalar_<double>", {})
    H["cv::drawContours"] = H["cv::drawKeypoints"] = lambda ip, q, fref, obj, args, node: None
    H["cv::MatSize::operator()"] = lambda ip, q, fref, obj, args, node: S("cv::Size_<int>", width=W, height=HT)
    H["cvRound"] = lambda ip, q, fref, obj, args, node: app("round", (num(ip.load(args[0])),), "I")
    H["cv::_InputArray::getMat"] = lambda ip, q, fref, obj, args, node: deref(ip, obj)
    H["cv::Mat::channels"] = lambda ip, q, fref, obj, args, node: var("channels", "I")


def prove(ctx):
    prog = ctx.program(SOURCES[0])
    install()
    PT = NS + "CircleDetectorParams"

    def fn(q):
        f = [g for g in prog.find(q) if g.get("body")]
        if not f:
            raise Unsupported("no function " + q)
        return f[0]

    def contour_specs(lv):
        """the contours of at least five points, and what is selected from contour k"""
        n = app("len:contours", (ZERO, lv), "I")
        ln = lambda k: app("len:contour", (ZERO, lv, num(k)), "I")
        pt = lambda k, j: S("cv::Point_<int>", x=app("px.x", (ZERO, lv, num(k), num(j)), "I"), y=app("px.y", (ZERO, lv, num(k), num(j)), "I"))
        return n, ln, lambda k: Seq([Fun(ln(k), lambda j: pt(k, j))], "cv::Point_<int>")

    def selected(P, lv, k):
        """(condition, centre) of the documented filters for contour k"""
        f = lambda n: P.f[n]
        a = (ZERO, lv, num(k))
        at = lambda n: app(n + ":px.x", a)
        on = lambda n: ip_tob(f(n))
        within = lambda v, n: band(le(f("min" + n), v), lt(v, f("max" + n)))
        area = at("area")
        c = [bor(bnot(on("filterByArea")), within(area, "Area"))]
        c.append(bor(bnot(on("filterByCircularity")), within(4 * num(math.pi) * area / (at("perimeter") * at("perimeter")), "Circularity")))
        m11, m20, m02 = at("mu11"), at("mu20"), at("mu02")
        D = sqrt(4 * m11 * m11 + (m20 - m02) * (m20 - m02))
        # half the sum and half the difference of the principal second moments
        t, d = (m20 + m02) / 2, ((m20 - m02) * ((m20 - m02) / D) + 2 * m11 * (2 * m11 / D)) / 2
        c.append(bor(bnot(on("filterByInertia")), within(ite(lt(num(1e-2), D), (t - d) / (t + d), ONE), "InertiaRatio")))
        c.append(bor(bnot(on("filterByConvexity")), within(area / app("area:hull.x", a), "Convexity")))
        e = lambda n: app("ellipse." + n, a)
        x, y = app("round", (e("x"),), "I"), app("round", (e("y"),), "I")
        inside = band(le(0, x), lt(x, W), le(0, y), lt(y, HT))
        c.append(bor(bnot(on("filterByColor")), band(inside, eq(app("pixel", (ZERO, lv, y, x), "I"), f("circleColor")))))
        n = app("len:contour", a, "I")
        th = e("angle") * num(math.pi) / 180
        co, si = cos(th), sin(th)

        def dist(j):
            dx, dy = app("px.x", a + (num(j),), "I") - e("x"), app("px.y", a + (num(j),), "I") - e("y")
            u, w = dx * co + dy * si, dx * si - dy * co
            return sqrt(4 * u * u / (e("w") * e("w")) + 4 * w * w / (e("h") * e("h")))

        err = summ(n, dist) / n - 1
        err = T_.eabs(err)
        c.append(lt(err, f("maxAverageEllipseError")))
        centre = S(NS + "CircleDetector::Center", location=S("cv::Point_<double>", x=e("x"), y=e("y")), radius=(e("w") + e("h")) / 4, confidence=1 / err)
        return band(*c), centre

    def ip_tob(v):
        return v if isinstance(v, B) else bnot(eq(v, 0))

    def circles():
        f = fn(AN + "findCircles")
        ip = ctx.interp(prog, {})
        P = sym(ip, PT, "params")
        lv = var("level")
        for p in run_entry(ip, f, [Ref(ip.new(mat(image=ZERO), "image")), lv, Ref(ip.new(P, "params"))], None, ()):
            pc = tuple(p.pc)
            L = "circles of a thresholded image"
            if p.kind == "throw":
                ctx.ob(L + ": no exception", pc, "bool", TRUE, FALSE)
                continue
            v = ip.load(p.val.val)
            n, ln, contour = contour_specs(lv)
            F = Seq([Gen(n, lambda k: Seq([If(le(5, ln(k)), Seq([Items([contour(k)])]))]))])
            idx = lambda i: the_atom(F.at(i).at(ZERO).f["x"]).args[1][2]

            def gen(k, what, cond=TRUE):
                c, centre = selected(P, lv, k)
                return Seq([If(band(cond, c), Seq([Items([centre if what == "centers" else contour(k)])]))])

            for what in ("centers", "contours"):
                # what is selected from the contours of at least five points: as one pass over all contours, or over the
                # positions of those that are long enough (the same sequence)
                one_pass = any(isinstance(g, Gen) and not (g.n - n).t for g in v.f[what].segs)
                want = Gen(n, lambda k: gen(k, what, le(5, ln(k)))) if one_pass else Gen(F.length(), lambda i: gen(idx(i), what))
                ctx.obs_eq("%s: %s" % (L, what), v.f[what], Seq([want]), pc)
            for a in getattr(ip, "thr_log", [])[:1]:
                ctx.ob(L + ": binary threshold of the image at the level", pc, "bool", band(eq(num(a[2]), lv), eq(num(a[3]), 255), eq(num(a[4]), 0)), TRUE)
            for q, (y, x) in ip.pixel_log[:1]:
                ctx.ob(L + ": the pixel that is read lies in the image", tuple(q), "bool", band(le(0, x), lt(x, W), le(0, y), lt(y, HT)), TRUE)

    ctx.run("circles", circles)

    CT = "std::vector<std::vector<rct_image_tools::CircleDetector::Center>>"

    def match(P, g, c):
        """the first circle of a group is close to the circle"""
        e = g.at(ZERO)
        d = [e.f["location"].f[k] - c.f["location"].f[k] for k in "xy"]
        return band(bnot(eq(g.length(), 0)), le(sqrt(d[0] * d[0] + d[1] * d[1]), P.f["circleInclusionRadius"]), le(T_.eabs(e.f["radius"] - c.f["radius"]), P.f["maxRadiusDiff"]))

    def keypoints():
        f = fn(AN + "detectKeyPoints")
        ip = ctx.interp(prog, {})
        ip.widen = 0
        P = sym(ip, PT, "params")
        A = sym(ip, CT, "all")
        L = "keypoints of grouped circles"
        for p in run_entry(ip, f, [Ref(ip.new(A, "all")), Ref(ip.new(P, "params"))], None, ()):
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob(L + ": no exception", pc, "bool", TRUE, FALSE)
                continue
            # ---- grouping: what happens to the groups with every circle of every threshold
            loc, path, init, ph, post, t, N, groups = ip.steps[-1]
            n = the_atom(N)
            if not (n and n.args and n.args[0] == "len:all[]" and len(init.segs) == 1 and isinstance(init.segs[0], loops.PSeg)):
                raise Unsupported("grouping is not a loop over the circles in a loop over the thresholds")
            o = n.args[1][0]
            c = A.at(o).at(t)
            q = pc + (le(0, o), lt(o, A.length()), le(0, t), lt(t, N), quant("all", ph.length(), lambda i: le(1, ph.at(i).length())))
            some = quant("ex", ph.length(), lambda i: match(P, ph.at(i), c))
            first = loops.least(ph.length(), lambda i: match(P, ph.at(i), c))
            ctx.obs_eq(L + ": a circle that is close to no group starts one", post, Seq(list(ph.segs) + [Items([Seq([Items([c])])])]), q + (bnot(some),))
            joined = lambda i: Seq(list(ph.at(i).segs) + [If(eq(i, first), Seq([Items([c])]))])
            ctx.obs_eq(L + ": a circle joins the first group whose first circle is close", post, Seq([Fun(ph.length(), joined)]), q + (some,))
            # ---- averages
            v = ip.load(p.val.val)
            some = (le(1, A.length()),)

            def kp(i):
                g = groups.at(i)
                m = g.length()
                w = summ(m, lambda j: g.at(j).f["confidence"])
                a = lambda h: summ(m, lambda j: g.at(j).f["confidence"] * h(g.at(j))) / w
                k = S("cv::KeyPoint", pt=S("cv::Point_<double>", x=a(lambda e: e.f["location"].f["x"]), y=a(lambda e: e.f["location"].f["y"])), size=2 * a(lambda e: e.f["radius"]), angle=num(-1), response=ZERO, octave=ZERO, class_id=num(-1))
                return Seq([If(le(P.f["minRepeatability"], m), Seq([Items([k])]))])

            ctx.obs_eq(L + ": weighted means of the groups that are large enough", v, Seq([Gen(groups.length(), kp)]), pc + some)
            ctx.ob(L + ": none without thresholds", pc + (eq(A.length(), 0),), "eq", v.length(), ZERO)

    def levels(entry):
        f = fn(NS + "CircleDetector::" + entry)
        calls, grouped = [], []

        def find(ip, f, args, this):
            im, lv, q = [ip.load(x) for x in args]
            calls.append((tuple(ip.pc), num(im.f["image"]), num(lv), q))
            return Struct(AN + "DetectionResult", {"centers": sym(ip, "std::vector<rct_image_tools::CircleDetector::Center>", "found", (num(lv),)), "contours": sym(ip, "std::vector<std::vector<cv::Point_<int>>>", "outlines", (num(lv),))})

        def group(ip, f, args, this):
            grouped.append((tuple(ip.pc), ip.load(args[0]), ip.load(args[1])))
            return sym(ip, "std::vector<cv::KeyPoint>", "keypoints")

        ip = ctx.interp(prog, {AN + "findCircles": find, AN + "detectKeyPoints": group})
        P = sym(ip, PT, "params")
        this = ip.default_struct(NS + "CircleDetector")
        this = Ref(ip.new(Struct(this.ty, dict(this.f, params=P)), "this"))
        im = Ref(ip.new(mat(image=var("img", "I")), "image"))
        out = Ref(ip.new(Seq([], "cv::KeyPoint"), "out"))
        L = entry
        n = P.f["nThresholds"]
        lo, hi = P.f["minThreshold"], P.f["maxThreshold"]
        level = lambda k: ite(lt(n, 2), (lo + hi) / 2, lo + (hi - lo) * k / (n - 1))
        color = eq(var("channels", "I"), 3)
        for p in run_entry(ip, f, [im, out, im][: len(f["params"])], this, ()):
            pc = tuple(p.pc)
            bad = lt(n, P.f["minRepeatability"])
            if p.kind == "throw":
                ctx.ob(L + ": refusal only if there are fewer thresholds than required repetitions", pc, "bool", bad, TRUE)
                continue
            ctx.ob(L + ": no result if there are fewer thresholds than required repetitions", pc, "bool", bad, FALSE)
            if entry == "detect":
                ctx.obs_eq(L + ": the keypoints of the groups are returned", p.mem[out.loc], sym(ip, "std::vector<cv::KeyPoint>", "keypoints"), pc)
        gray = ite(color, app("gray", (var("img", "I"),), "I"), var("img", "I"))
        n01 = lambda v: v if isinstance(v, E) else ite(v, ONE, ZERO)
        same_params = lambda what, q, par: ctx.ob("%s: parameters of %s" % (L, what), q, "bool", band(*[eq(n01(par.f[k]), n01(P.f[k])) for k in P.f]), TRUE)
        if not calls or not grouped:
            raise Unsupported("no search for circles")
        q, im, lv, par = calls[-1]
        ctx.ob(L + ": circles are searched in the grey image", q, "eq", im, gray)
        same_params("the search", q, par)
        q, a, par = grouped[-1]
        same_params("the grouping", q, par)
        want = Seq([Fun(n, lambda k: sym(ip, "std::vector<rct_image_tools::CircleDetector::Center>", "found", (level(k),)))])
        ctx.obs_eq(L + ": circles at equally spaced thresholds from the first to the last are grouped", a, want, q)

    ctx.run("keypoints", keypoints)
    ctx.run("detect", lambda: levels("detect"))
    ctx.run("drawDetectedCircles", lambda: levels("drawDetectedCircles"))
