"""C30: what the Python bindings return against the core library and against models of the objects."""
import os, shutil, sys
import numpy as np
from pylib import Scene, mkcal, calarr, layouts, main

RULE = ("an evaluation compares one result of the bindings (array, file, attribute, comparison, exception) with the core "
        "called directly, or with a model of the object; distinct: different inputs and results")
D = np.float64


def out_arrays(c, n, m):
    """arrays to write results to, in different layouts, filled with junk"""
    big = np.full((2 * n + 2, 2 * m + 2), 5e55)
    return [("none", None), ("contiguous", np.full((n, m), 4e44)), ("fortran", np.asfortranarray(np.full((n, m), 3e33))),
            ("strided", big[1:1 + 2 * n:2, 0:2 * m:2])]


# ------------------------------------------------------------ transforms and projection
def conv(c, core, what, fn, arr, want, args, kwname, kwargs={}):
    """one array function, called with every layout of input and output"""
    fixed = arr.copy()
    fixed.flags.writeable = False
    for ln, a in layouts(c, arr) + [("read-only", fixed)]:
        keep = a.copy()
        on, o = c.r.choice(out_arrays(c, len(arr), 2))
        kw = dict(kwargs)
        if o is not None:
            kw[kwname] = o
        got = fn(a, *args, **kw)
        c.same(got, want, what, "%s, input %s, output %s" % (what, ln, on))
        c.count("layouts tried")
        if o is not None:
            c.same(o, want, what + ":out", "%s: array given for output (%s), input %s" % (what, on, ln))
            if on == "strided":
                b = o.base
                c.check(bool((b[::2] == 5e55).all() and (b[:, 1::2] == 5e55).all()), what + ":around", "%s wrote around the output array", what)
        else:
            c.check(got is not a and not (len(arr) and np.shares_memory(got, a)), what + ":alias", "%s returned its input", what)
        c.check(bool((a == keep).all()), what + ":input", "%s changed its input", what)


def a_transforms(c, core):
    from optv import transforms as T
    s = Scene(c, 1, mild=c.r.random() < .7)
    n = c.r.choice([0, 1, 2, 7, 40])
    cal, cpar = mkcal(s.cals[0]), s.cpar()
    ch = c.r.choice([0, 0, 1, 2])
    cpar.set_chfield(ch)
    cp = s.cp_arr(chfield=ch)
    px = np.array([[c.u(-20, s.imx + 20), c.u(-20, s.imy + 20)] for _ in range(n)]).reshape(n, 2)
    want = core.pixel(cp, px, False)
    conv(c, core, "pixel_to_metric", T.convert_arr_pixel_to_metric, px, want, (cpar,), "out")
    conv(c, core, "metric_to_pixel", T.convert_arr_metric_to_pixel, want, core.pixel(cp, want, True), (cpar,), "out")
    conv(c, core, "correct_brown", T.correct_arr_brown_affine, want, core.brown(s.cals[0], want, False), (cal,), "out")
    conv(c, core, "distort_brown", T.distort_arr_brown_affine, want, core.brown(s.cals[0], want, True), (cal,), "out")
    conv(c, core, "distorted_to_flat", T.distorted_to_flat, want, core.flat(s.cals[0], want, 1e-5), (cal,), "out")
    tol = 10 ** c.u(-10, -1)
    conv(c, core, "distorted_to_flat_tol", T.distorted_to_flat, want, core.flat(s.cals[0], want, tol), (cal,), "out", {"tol": tol})
    # the result may be written over the input
    a = px.copy()
    T.convert_arr_pixel_to_metric(a, cpar, a)
    c.same(a, want, "in-place", "pixel to metric in place")
    a = want.copy()
    T.distorted_to_flat(a, cal, a)
    c.same(a, core.flat(s.cals[0], want, 1e-5), "in-place", "distorted to flat in place")
    c.distinct("tr", n, want.tolist())
    c.idx > 40 and c.sample("transforms of %d points" % n)


def a_imgcoord(c, core):
    from optv import imgcoord as I
    s = Scene(c, 1, mild=c.r.random() < .7)
    n = c.r.choice([0, 1, 2, 9, 30])
    cal, mm = mkcal(s.cals[0]), s.cpar().get_multimedia_params()
    pts = s.points(c, n)
    for flat, fn in ((True, I.flat_image_coordinates), (False, I.image_coordinates)):
        conv(c, core, fn.__name__, fn, pts, core.project(s.cals[0], s.mm_arr(), pts, flat), (cal, mm), "output")
    c.distinct("ic", pts.tolist())


def a_epipolar(c, core):
    from optv.epipolar import epipolar_curve
    s = Scene(c, 2)
    cal = [mkcal(a) for a in s.cals]
    cpar, vpar = s.cpar(), s.vpar()
    n = c.r.choice([0, 1, 2, 3, 10, 33])
    p = core.pixel(s.cp_arr(), core.project(s.cals[0], s.mm_arr(), s.points(c, 1), False), True)[0]
    want = np.zeros((n, 2))
    zs = np.linspace(s.zs[0][0], s.zs[0][1], n)
    core.call("vc_epicurve", float(p[0]), float(p[1]), s.cals[0], s.cals[1], n, zs, s.cp_arr(), s.mm_arr(), want)
    for ln, a in layouts(c, p):
        c.same(epipolar_curve(a, cal[0], cal[1], n, cpar, vpar), want, "epipolar_curve", "epipolar curve of %d points, input %s" % (n, ln))
    c.distinct("ep", want.tolist())


# ------------------------------------------------------------ images
def blobs(c, w, h, n):
    img = np.array([[c.r.randint(0, 12) for _ in range(w)] for _ in range(h)], dtype=np.uint8) if c.r.random() < .5 else np.zeros((h, w), dtype=np.uint8)
    yy, xx = np.mgrid[0:h, 0:w]
    f = img.astype(float)
    for _ in range(n):
        x, y, sg, a = c.u(0, w), c.u(0, h), c.u(.7, 2.2), c.u(60, 250)
        f += a * np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / (2 * sg * sg))
    return np.clip(f, 0, 255).astype(np.uint8)


def a_preprocess(c, core):
    from optv.image_processing import preprocess_image
    from optv.parameters import ControlParams
    w, h = c.r.choice([(32, 24), (17, 33), (40, 40), (9, 50), (64, 16)])
    img = blobs(c, w, h, 4) if c.r.random() < .7 else np.array([[c.r.randint(0, 255) for _ in range(w)] for _ in range(h)], dtype=np.uint8)
    ch = c.r.choice([0, 0, 1, 2])
    hp = c.r.choice([0, 1, 2])
    if c.r.random() < .1:
        w, h = c.r.choice([(200, 90), (61, 150)])
        img = blobs(c, w, h, 12)
    dim = c.r.choice([1, 1, 2, 3, 0, 7, 14, 40])
    cpar = ControlParams(c.r.randint(1, 4), image_size=(w, h), pixel_size=(.01, .01))
    cpar.set_chfield(ch)
    cp = np.array([1, w, h, .01, .01, ch, 0, 0, 0], dtype=float)
    fname = None
    if hp == 2:
        fname = os.path.join(c.scratch, "filter.par")
        with open(fname, "w") as f:
            for _ in range(3):
                f.write(" ".join("%g" % c.r.choice([0, 1, 2, 4, .5, .25]) for _ in range(3)) + "\n")
            f.write("1 1 1\n" * 0)
    want = np.zeros((h, w), dtype=np.uint8)
    r = core.call("vc_prepare", img.copy(), want, dim, hp, (fname or "").encode(), cp)
    if r != 1:
        c.count("preprocessing not possible")
        try:
            preprocess_image(img, hp, cpar, lowpass_dim=dim, filter_file=fname)
            c.fail("prepare-failed", "preprocessing failed without an exception")
        except Exception:
            c.res.evals += 1
        return
    for ln, a in layouts(c, img):
        keep = a.copy()
        kw = {}
        big = np.full((2 * h, 2 * w), 99, dtype=np.uint8)
        o = c.r.choice([None, np.full((h, w), 7, dtype=np.uint8), np.asfortranarray(np.full((h, w), 8, dtype=np.uint8)), big[::2, ::2]])
        if o is not None:
            kw["output_img"] = o
        got = preprocess_image(a, hp, cpar, lowpass_dim=dim, filter_file=fname, **kw)
        what = "preprocess_image, %s, filter %d, fields %d, output %s" % (ln, hp, ch, "given" if o is not None else "new")
        c.same(got, want, "preprocess", what)
        c.check(np.shares_memory(got, o) if o is not None else not np.shares_memory(got, a), "preprocess:returned", "%s: the image returned is not the one written to", what)
        if o is not None:
            c.same(o, want, "preprocess:out", what)
        c.check(bool((a == keep).all()), "preprocess:input", "preprocessing changed its input")
    c.distinct("pp", hp, ch, dim, want.tobytes())


def targlist(ta):
    return np.array([[t.pnr(), t.pos()[0], t.pos()[1], *t.count_pixels(), t.sum_grey_value(), t.tnr()] for t in ta], dtype=float).reshape(-1, 8)


def a_recognition(c, core):
    from optv.segmentation import target_recognition
    from optv.parameters import ControlParams, TargetParams
    w, h = c.r.choice([(64, 48), (50, 70), (90, 40), (33, 33)])
    large = c.r.random() < .04
    if large:
        w, h = 500, c.r.choice([60, 300, 420])
        c.count("large images full of dots")
    img = blobs(c, w, h, c.r.randint(0, 12))
    full = large or c.r.random() < .1
    if full:  # as many targets as can be
        img = np.zeros((h, w), dtype=np.uint8)
        img[1::2, 1::2] = c.r.randint(100, 255)
        if c.r.random() < .5:
            img[c.r.randint(0, h - 1), c.r.randint(0, w - 1)] = 90
        c.count("images full of dots")
    cam = c.r.randint(0, 3)
    gv = [c.r.randint(10, 90) for _ in range(4)]
    b = [(c.r.randint(1, 6), c.r.randint(20, 300)), (c.r.randint(1, 3), c.r.randint(5, 40)), (c.r.randint(1, 3), c.r.randint(5, 40))]
    disc, sg = c.r.randint(0, 120), c.r.choice([0, 100, 400])
    if full:
        b, sg, gv = [(1, 300), (1, 40), (1, 40)], 0, [c.r.randint(10, 80) for _ in range(4)]
    tp = TargetParams(discont=disc, gvthresh=gv, pixel_count_bounds=b[0], xsize_bounds=b[1], ysize_bounds=b[2], min_sum_grey=sg, cross_size=3)
    tpa = np.array(gv + [disc, *b[0], *b[1], *b[2], sg, 3], dtype=np.int32)
    cpar = ControlParams(4, image_size=(w, h), pixel_size=(.01, .01))
    cp = np.array([4, w, h, .01, .01, 0, 0, 0, 0], dtype=float)
    kw, rng = {}, [0, w, 0, h]
    if c.r.random() < .5:
        kw["subrange_x"] = (c.r.choice([0, 1, c.r.randint(0, w // 3)]), c.r.choice([w, w - 1, c.r.randint(w // 2, w)]))
        rng[0:2] = kw["subrange_x"]
    if c.r.random() < .5:
        kw["subrange_y"] = (c.r.choice([0, 1, c.r.randint(0, h // 3)]), c.r.choice([h, h - 1, c.r.randint(h // 2, h)]))
        rng[2:4] = kw["subrange_y"]
    want = np.zeros((60000, 8))
    n = core.call("vc_recognize", img.copy(), tpa, rng[0], rng[1], rng[2], rng[3], cp, cam, want, 60000)
    want = want[:n]
    for ln, a in layouts(c, img)[:1 if large else None]:
        keep = a.copy()
        got = target_recognition(a, tp, cam, cpar, **kw)
        c.check(len(got) == n, "recognition", "%d targets, expected %d (%s, %s)", len(got), n, ln, kw)
        if len(got) == n:
            c.same(targlist(got), want, "recognition", "targets, %s image, camera %d, %s" % (ln, cam, kw))
        c.check(bool((a == keep).all()), "recognition:input", "detection changed the image given to it")
    c.count("targets recognised", n)
    c.distinct("rec", want.tolist())


# ------------------------------------------------------------ matching
def make_targets(c, rows):
    from optv.tracking_framebuf import TargetArray
    t = TargetArray(len(rows))
    for k, r in enumerate(rows):
        t[k].set_pnr(int(r[0]))
        t[k].set_pos((r[1], r[2]))
        t[k].set_pixel_counts(int(r[3]), int(r[4]), int(r[5]))
        t[k].set_sum_grey_value(int(r[6]))
        t[k].set_tnr(int(r[7]))
    return t


def detections(c, core, s, n, noise=True):
    """targets of n particles in each camera, in image order, and which particle each is of"""
    pts = s.points(c, n)
    out = []
    size = [c.r.randint(4, 12) for _ in range(n)]
    for k in range(s.nc):
        px = core.pixel(s.cp_arr(), core.project(s.cals[k], s.mm_arr(), pts, False), True) if n else np.zeros((0, 2))
        rows = []
        for i in range(n):
            if noise and c.r.random() < .12:
                continue
            g = size[i] + c.r.randint(-1, 1)
            rows.append([0, px[i][0], px[i][1], g * 2, 3, 3, g * 60, -1])
        for _ in range(c.r.randint(0, 3) if noise else 0):
            rows.append([0, c.u(0, s.imx), c.u(0, s.imy), 10, 3, 3, 500, -1])
        rows.sort(key=lambda t: t[2])
        for i, t in enumerate(rows):
            t[0] = i
        out.append(np.array(rows, dtype=float).reshape(-1, 8))
    return pts, out


def core_match(core, s, tg, tol=1e-5):
    pos, pnr = [], []
    for k in range(s.nc):
        p, i = np.zeros((len(tg[k]), 2)), np.zeros(len(tg[k]), dtype=np.int32)
        core.call("vc_matched", len(tg[k]), np.ascontiguousarray(tg[k]), s.cp_arr(), s.cals[k], float(tol), p, i)
        pos.append(p)
        pnr.append(i)
    return pos, pnr


def a_matched(c, core):
    from optv.correspondences import MatchedCoords
    s = Scene(c, 1)
    coarse = c.r.random() < .3
    if coarse:  # so much distortion that a coarse tolerance shows
        s.cals[0][12] = c.u(-2e-2, 2e-2)
    pts, tg = detections(c, core, s, c.r.choice([0, 1, 5, 40]))
    cpar, cal = s.cpar(), mkcal(s.cals[0])
    tol = 10 ** (c.u(-3, 1) if coarse else c.u(-9, -3))
    pos, pnr = core_match(core, s, tg, tol)
    ta = make_targets(c, tg[0])
    m = MatchedCoords(ta, cpar, cal, tol)
    gp, gn = m.as_arrays()
    c.same(gp, pos[0], "matched", "coordinates")
    c.same(gn, pnr[0], "matched", "point numbers")
    # numbers of its own
    lo, step = c.r.choice([(0, 1), (0, 1), (-1, 1), (-len(tg[0]), 1), (-5, 3), (1000, 7)])
    shuf = [lo + step * k for k in range(len(tg[0]))]
    c.r.shuffle(shuf)
    ta2 = make_targets(c, tg[0])
    for k, v in enumerate(shuf):
        ta2[k].set_pnr(v)
    m2 = MatchedCoords(ta2, cpar, cal, tol, False)
    gp2, gn2 = m2.as_arrays()
    c.same(gp2, pos[0], "matched", "coordinates, targets with numbers of their own")
    c.same(gn2, [shuf[int(i)] for i in pnr[0]], "matched", "numbers kept")
    MatchedCoords(ta2, cpar, cal, tol)
    c.same([t.pnr() for t in ta2], range(len(shuf)), "matched", "targets renumbered")
    c.same(m2.as_arrays()[1], gn2, "matched", "numbers kept when the targets get others")
    # by number
    want = {int(n): p for n, p in zip(pnr[0], pos[0])}
    ask = c.r.sample(sorted(want), c.r.randint(0, len(want))) if want else []
    c.same(m.get_by_pnrs(np.array(ask, dtype=np.int_)), np.array([want[i] for i in ask]).reshape(-1, 2), "get_by_pnrs", "coordinates by number")
    c.distinct("mc", len(ta), gp.tolist())


def a_correspond(c, core):
    from optv.correspondences import MatchedCoords, correspondences
    s = Scene(c, c.r.choice([1, 2, 3, 4, 4]))
    n = c.r.choice([0, 1, 6, 25, 60])
    pts, tg = detections(c, core, s, n)
    cpar, vpar = s.cpar(), s.vpar()
    cals = [mkcal(a) for a in s.cals]
    tas = [make_targets(c, t) for t in tg]
    mcs = [MatchedCoords(t, cpar, cal) for t, cal in zip(tas, cals)]
    pos, ids, total = correspondences(tas, mcs, cals, vpar, cpar)
    cpos, cpnr = core_match(core, s, tg)
    if s.nc == 1:
        c.check(len(pos) == 1 and len(ids) == 1 and total == len(tg[0]), "single", "%d lists, %d in total", len(pos), total)
        c.same(ids[0], cpnr[0].reshape(1, -1), "single", "numbers of one camera")
        c.same(pos[0], tg[0][cpnr[0]][:, 1:3].reshape(1, -1, 2), "single", "positions of one camera")
        c.same([t.tnr() for t in tas[0]], [list(cpnr[0]).index(k) for k in range(len(tg[0]))], "single", "target numbers")
        c.distinct("s1", pos[0].tolist())
        return
    counts = np.array([len(t) for t in tg], dtype=np.int32)
    flat = np.ascontiguousarray(np.concatenate(tg))
    mc, out = np.zeros(4, dtype=np.int32), np.full((int(counts.sum()) + 1) * 4, -7, dtype=np.int32)
    nm = core.call("vc_correspond", s.nc, counts, flat, np.ascontiguousarray(np.concatenate(cpos)), np.ascontiguousarray(np.concatenate(cpnr)),
                   np.ascontiguousarray(np.concatenate(s.cals)), s.vp_arr(), s.cp_arr(), s.mm_arr(), mc, out, int(counts.sum()) + 1)
    out = out.reshape(-1, 4)[:nm]
    c.check(total == nm, "corresp-total", "%d in total, expected %d (%d cameras)", total, nm, s.nc)
    c.check(len(pos) == s.nc - 1 and len(ids) == s.nc - 1, "corresp-lists", "%d lists for %d cameras", len(pos), s.nc)
    at = 0
    for q in range(s.nc - 1):
        cnt = int(mc[4 - s.nc + q])
        wi = np.full((s.nc, cnt), -1)
        wp = np.full((s.nc, cnt, 2), -999.)
        for k in range(s.nc):
            for i in range(cnt):
                g = out[at + i][k]
                if g >= 0:
                    wi[k, i] = cpnr[k][g]
                    wp[k, i] = tg[k][cpnr[k][g]][1:3]
        at += cnt
        c.same(ids[q], wi, "corresp-ids", "group %d of %d cameras" % (q, s.nc))
        c.same(pos[q], wp, "corresp-pos", "positions, group %d of %d cameras" % (q, s.nc))
        c.count("matches of %d cameras" % (s.nc - q), cnt)
    off = 0
    for k in range(s.nc):
        c.same(targlist(tas[k]), flat[off:off + counts[k]], "corresp-targets", "targets of camera %d after matching" % k)
        off += counts[k]
    c.distinct("co", s.nc, [i.tolist() for i in ids])
    c.sample("%d cameras, %d particles: %s" % (s.nc, n, [int(x) for x in mc]))


# ------------------------------------------------------------ positions and calibration
def a_positions(c, core):
    from optv.orientation import point_positions, single_cam_point_positions, multi_cam_point_positions, dumbbell_target_func
    s = Scene(c, c.r.choice([1, 2, 3, 4]))
    n = c.r.choice([0, 1, 2, 20]) if c.r.random() < .9 else c.r.choice([300, 1200])
    pts = s.points(c, n)
    cpar, vpar = s.cpar(), s.vpar()
    cals = [mkcal(a) for a in s.cals]
    tg = np.array([core.project(a, s.mm_arr(), pts, True) for a in s.cals]).reshape(s.nc, n, 2).transpose(1, 0, 2)
    tg = np.ascontiguousarray(tg + np.array([c.u(-.002, .002) for _ in range(tg.size)]).reshape(tg.shape))
    if n > 3 and s.nc > 1:
        tg[1, 0] = -1e10  # not seen by one camera
    res, rcm = np.zeros((n, 3)), np.zeros(n)
    allc = np.ascontiguousarray(np.concatenate(s.cals))
    core.call("vc_positions", s.nc, n, tg, allc, s.mm_arr(), res, rcm)
    if s.nc == 1:
        core.call("vc_positions_2d", n, tg, allc, s.mm_arr(), s.vp_arr(), res)
        rcm[:] = 0
    for ln, a in layouts(c, tg):
        keep = a.copy()
        for cl in (cals, tuple(cals)):
            fns = [lambda: point_positions(a, cpar, cl, vpar)]
            if s.nc == 1:
                fns.append(lambda: single_cam_point_positions(a, cpar, list(cl), vpar))
            else:
                fns.append(lambda: multi_cam_point_positions(a, cpar, list(cl)))
            for f in fns:
                g, m = f()
                c.same(g, res, "positions", "positions, %d cameras, %s" % (s.nc, ln))
                c.same(m, rcm, "positions-rcm", "convergence, %d cameras, %s" % (s.nc, ln))
        c.check(bool((a == keep).all()), "positions:input", "input changed")
    if s.nc > 1 and n >= 2:
        m = c.r.choice([n // 2 * 2, n, n - 1 if n > 2 else n])  # half as many dumbbells, also of odd numbers
        t = np.ascontiguousarray(tg[:m])
        t[abs(t) > 1e9] = .1
        ln, w = c.r.randint(1, 30), c.u(0, 2)
        want = core.call("vc_dumbbell", s.nc, m, t, allc, s.mm_arr(), ln, float(w))
        c.same(dumbbell_target_func(t, cpar, cals, ln, w), want, "dumbbell", "dumbbell function, %d points" % m)
        c.same(dumbbell_target_func(t, cpar, tuple(cals), ln, w), want, "dumbbell", "dumbbell function, calibrations in a tuple")
    c.distinct("po", s.nc, res.tolist())


def a_dumbbell_layout(c, core):
    """arrays which aren't contiguous, inside memory that is large enough for any way of reading them"""
    from optv.orientation import dumbbell_target_func
    s = Scene(c, c.r.choice([2, 3, 4]))
    n = c.r.choice([2, 4, 6])
    tg = np.array([core.project(a, s.mm_arr(), s.points(c, n), True) for a in s.cals]).reshape(s.nc, n, 2)
    t = tg.transpose(1, 0, 2)
    want = core.call("vc_dumbbell", s.nc, n, np.ascontiguousarray(t), np.ascontiguousarray(np.concatenate(s.cals)), s.mm_arr(), 10, 1.)
    big = np.zeros(64 + tg.size * 4)
    b = big[:tg.size].reshape(s.nc, n, 2)
    b[...] = tg
    got = dumbbell_target_func(b.transpose(1, 0, 2), s.cpar(), [mkcal(a) for a in s.cals], 10, 1.)
    c.same(got, want, "dumbbell-strided", "dumbbell function of a transposed array, %d points, %d cameras" % (n, s.nc))
    c.distinct("db", want)


FLAGS = ["cc", "xh", "yh", "k1", "k2", "k3", "p1", "p2", "scale", "shear"]


def a_calibrate(c, core):
    from optv.orientation import external_calibration, full_calibration, match_detection_to_ref
    s = Scene(c, 1, nlay=1)
    s.cals[0][5] = c.u(-.1, .1)
    n = c.r.choice([12, 20, 30])
    ref = s.points(c, n)
    true = s.cals[0]
    cpar = s.cpar()
    mm, cp = s.mm_arr(), s.cp_arr()
    px = core.pixel(cp, core.project(true, mm, ref, False), True)
    start = true.copy()
    start[0:3] += [c.u(-3, 3) for _ in range(3)]
    start[3:6] += [c.u(-.01, .01) for _ in range(3)]
    lost = c.r.random() < .15  # a start far from any solution
    if lost:
        start[0:3] += [c.u(-400, 400) for _ in range(3)]
        start[3:6] += [c.u(-2, 2) for _ in range(3)]

    # raw orientation from some of the points
    nr = c.r.choice([4, 6, n])
    ca = start.copy()
    ok = core.call("vc_raw_orient", ca, cp, mm, nr, np.ascontiguousarray(ref[:nr]), np.ascontiguousarray(px[:nr]))
    for (ln, rf), (lp, pp) in zip(layouts(c, ref[:nr]), layouts(c, px[:nr])):
        cal = mkcal(start)
        got = external_calibration(cal, rf, pp, cpar)
        c.check(bool(got) == (ok != 0), "raw-success", "raw orientation returned %s, expected %s", got, ok)
        if ok or not lost:
            c.same(calarr(cal), ca, "raw-cal", "calibration after raw orientation (%s, %s)" % (ln, lp), tol=1e-7)
    c.count("raw orientations that succeed" if ok else "raw orientations that fail")
    if lost:  # the rest goes on from a sensible start
        start, ok = true.copy(), 0

    # detections in any order, matched with the reference
    rows = [[i, px[i][0] + c.u(-.05, .05), px[i][1] + c.u(-.05, .05), 20, 4, 5, 900, -1] for i in range(n) if c.r.random() < .9 or i < 9]
    for _ in range(c.r.choice([0, 0, 3, n, 3 * n])):  # detections that are no reference points
        rows.append([0, c.u(0, s.imx), c.u(0, s.imy), 20, 4, 5, 900, -1])
    c.r.shuffle(rows)
    for i, t in enumerate(rows):
        t[0] = i
    tg = np.array(rows, dtype=float)
    if len(rows) > n:
        c.count("more detections than reference points")
    eps = c.r.choice([2, 5, 12])
    want = np.zeros((n, 8))
    near = ca if ok else true
    core.call("vc_sortgrid", near, cp, mm, n, np.ascontiguousarray(ref), len(tg), np.ascontiguousarray(tg), eps, want)
    for ln, rf in layouts(c, ref):
        ta = make_targets(c, tg)
        srt = match_detection_to_ref(mkcal(near), rf, ta, cpar, eps)
        c.same(targlist(srt)[:, [0, 1, 2]], want[:, [0, 1, 2]], "match-ref", "targets in reference order (%s)" % ln)
        m = want[:, 0] >= 0
        c.same(targlist(srt)[m], want[m], "match-ref", "matched targets (%s)" % ln)
    c.count("reference points matched", int((want[:, 0] >= 0).sum()))

    # detections at any distance in the order of the search radius
    rad = c.r.choice([1, 3, 4, 7, 25, 25, c.r.randint(1, 60)])
    far = tg.copy()
    far[:, 1:3] += np.array([[c.u(-1.5, 1.5) * rad for _ in range(2)] for _ in range(len(far))])
    wfar = np.zeros((n, 8))
    core.call("vc_sortgrid", near, cp, mm, n, np.ascontiguousarray(ref), len(far), np.ascontiguousarray(far), rad, wfar)
    for ln, rf in layouts(c, ref)[:2]:
        kw = {} if rad == 25 else {"eps": rad}
        sfar = match_detection_to_ref(mkcal(near), rf, make_targets(c, far), cpar, **kw)
        c.same(targlist(sfar)[:, [0, 1, 2]], wfar[:, [0, 1, 2]], "match-ref", "targets within %d pixels, in reference order (%s)" % (rad, ln))
    c.count("reference points matched within a given radius", int((wfar[:, 0] >= 0).sum()))

    # full calibration
    for k in range(3):
        if k == 2 and c.r.random() < .5:  # targets with other numbers are left out
            part = c.r.choice([.15, .15, .15, .9, 1])
            for i in range(n):
                if c.r.random() < part:
                    want[i][0] = c.r.choice([-999, -1, i + 1, i - 1, n + i, 0])
            srt = make_targets(c, want)
            c.count("calibrations with targets of other numbers")
        fl = [c.r.random() < p for p in (.5, .4, .4, .5, .3, .2, .4, .4, .3, .3)]
        if c.r.random() < .3:
            fl = [i == c.r.randint(0, 9) for i in range(10)]
        fa = np.array(fl, dtype=np.int32)
        res, err = np.zeros(2 * n + 2), np.zeros(core.call("vc_npar") + 1)
        cf = near.copy()
        used = core.call("vc_orient", cf, cp, mm, n, np.ascontiguousarray(ref), np.ascontiguousarray(want), fa, res, err)
        names = [f for f, on in zip(FLAGS, fl) if on]
        for ln, rf in layouts(c, ref)[:3]:
            cal = mkcal(near)
            try:
                r, u, e = full_calibration(cal, rf, srt, cpar, names)
                good = True
            except ValueError:
                good = False
            c.check(good == (used >= 0), "full-success", "full calibration with %s: %s, core %d", names, good, used)
            if good and used >= 0:
                c.same(r, res[:2 * used].reshape(-1, 2), "full-residuals", "residuals with %s" % names, tol=1e-6)
                c.same(u, [i for i in range(n) if want[i][0] == i], "full-used", "targets used")
                c.same(e[:len(err)], err, "full-errors", "error estimates with %s" % names, tol=1e-5)
                c.same(calarr(cal), cf, "full-cal", "calibration with %s" % names, tol=1e-6)
                c.count("full calibrations")
            elif not good:
                c.same(calarr(cal), near, "full-unchanged", "calibration after failure")
                c.count("full calibrations that fail")
    c.distinct("cal", ca.tolist(), cf.tolist())


# ------------------------------------------------------------ parameter objects against a model
def name(c):
    return "".join(c.r.choice("abcXYZ_019./") for _ in range(c.r.randint(1, 30)))


def wild_name(c):
    if c.r.random() < .7:
        return name(c)
    return "".join(c.r.choice(" abc.%\\é\t") for _ in range(c.r.randint(0, 12)))


def num(c):
    return c.r.choice([0., 1., -1., c.u(-5, 5), c.u(-1e4, 1e4), c.r.randint(-9, 9) * .5, 1e-7])


def fnum(v):
    return "%.17g" % v


class Par:
    """a parameters object and what it should hold"""
    def compare_with(self, c, other):
        if self.comparable:
            e = self.key() == other.key()
            c.check((self.o == other.o) is e or (self.o == other.o) == e, self.n + ":eq", "== gives %s for %s and %s", self.o == other.o, self.m, other.m)
            c.check((self.o != other.o) == (not e), self.n + ":ne", "!= gives %s for %s and %s", self.o != other.o, self.m, other.m)
            c.count("comparisons, equal" if e else "comparisons, different")
    comparable = True

    def key(self):
        return repr(sorted(self.m.items()))

    def verify(self, c, what):
        for k, v in self.m.items():
            try:
                g = self.get(k)
            except Exception as e:
                c.fail(self.n + ":" + k.split("/")[0], "%s: reading %s raises %r", what, k, e)
                continue
            if isinstance(v, (list, tuple)):
                ok = list(g) == list(v)
            else:
                ok = g == v and type(g) is not str or (isinstance(v, bytes) and g == v)
            c.check(bool(ok), self.n + ":" + k.split("/")[0], "%s: %s is %r, expected %r", what, k, g, v)

    def get(self, k):
        return getattr(self.o, "get_" + k)()

    def set(self, k, v):
        getattr(self.o, "set_" + k)(v)
        self.m[k] = v


class PTrack(Par):
    n = "TrackingParams"
    keys = ["dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc", "add"]
    more = ["dsumg", "dn", "dnx", "dny"]

    def __init__(self, c):
        from optv.parameters import TrackingParams
        self.m = {k: 0 for k in self.keys + self.more}
        kw = {}
        if c.r.random() < .5:
            v = [[num(c), num(c)] for _ in range(3)]
            kw["velocity_lims"] = v
            for a, w in zip("xyz", v):
                self.m["dv%smin" % a], self.m["dv%smax" % a] = w
        for k, mk in (("accel_lim", "dacc"), ("angle_lim", "dangle"), ("add_particle", "add")):
            if c.r.random() < .5:
                kw[k] = c.r.randint(0, 1) if mk == "add" else num(c)
                self.m[mk] = kw[k]
        self.o = TrackingParams(**kw)

    def step(self, c):
        if c.r.random() < .2:
            v = [num(c) for _ in range(8)] + [c.r.randint(0, 1)]
            f = os.path.join(c.scratch, "track.par")
            open(f, "w").write("".join((fnum(x) if k < 8 else "%d" % x) + "\n" for k, x in enumerate(v)))
            self.o.read_track_par(f.encode())
            self.m.update(zip(self.keys, v))
            self.m.update((k, 0) for k in self.more)
            return "read"
        k = c.r.choice(self.keys + self.more)
        self.set(k, c.r.randint(-5, 5) if k in self.more + ["add"] else num(c))
        return "set " + k

    def readback(self, c):
        pass


class PVol(Par):
    n = "VolumeParams"
    keys = ["cn", "cnx", "cny", "csumg", "eps0", "corrmin"]
    arrs = ["X_lay", "Zmin_lay", "Zmax_lay"]

    def __init__(self, c):
        from optv.parameters import VolumeParams
        self.m = {k: 0. for k in self.keys}
        self.m.update((k, [0., 0.]) for k in self.arrs)
        kw = {}
        if c.r.random() < .5:
            kw["x_span"] = (num(c), num(c))
            self.m["X_lay"] = list(kw["x_span"])
        if c.r.random() < .5:
            z = [(num(c), num(c)), (num(c), num(c))]
            kw["z_spans"] = z
            self.m["Zmin_lay"], self.m["Zmax_lay"] = [z[0][0], z[1][0]], [z[0][1], z[1][1]]
        for k, mk in (("pixels_tot", "cn"), ("pixels_x", "cnx"), ("pixels_y", "cny"), ("ref_gray", "csumg"), ("min_correlation", "corrmin"), ("epipolar_band", "eps0")):
            if c.r.random() < .5:
                kw[k] = num(c)
                self.m[mk] = kw[k]
        self.o = VolumeParams(**kw)

    def step(self, c):
        if c.r.random() < .2:
            v = [num(c) for _ in range(12)]
            f = os.path.join(c.scratch, "vol.par")
            open(f, "w").write("".join(fnum(x) + "\n" for x in v))
            self.o.read_volume_par(f.encode())
            self.m.update(X_lay=[v[0], v[3]], Zmin_lay=[v[1], v[4]], Zmax_lay=[v[2], v[5]], cnx=v[6], cny=v[7], cn=v[8], csumg=v[9], corrmin=v[10], eps0=v[11])
            return "read"
        k = c.r.choice(self.keys + self.arrs)
        if k in self.arrs:
            v = [num(c), num(c)]
            self.set(k, c.r.choice([v, tuple(v), np.array(v)]))
            self.m[k] = v
        else:
            self.set(k, num(c))
        return "set " + k

    def readback(self, c):
        k = c.r.choice(self.arrs)
        f = getattr(self.o, "get_" + k)
        v = f(copy=False)
        v[1] = 123.25
        self.m[k] = [self.m[k][0], 123.25]
        w = f(copy=True)
        w[0] = 77777.


class PMM(Par):
    n = "MultimediaParams"
    keys = ["n1", "n3"]

    def __init__(self, c, o=None, m=None):
        from optv.parameters import MultimediaParams
        self.m = m or {"n1": 0., "n3": 0., "n2": [0., 0., 0.], "d": [0., 0., 0.], "nlay": 1}
        self.o = o
        if o is not None:
            return
        kw = {}
        if c.r.random() < .6:
            kw["n1"] = self.m["n1"] = num(c)
        if c.r.random() < .6:
            kw["n3"] = self.m["n3"] = num(c)
        if c.r.random() < .6:
            k = c.r.randint(1, 3)
            kw["n2"], kw["d"] = [num(c) for _ in range(k)], [num(c) for _ in range(k)]
            self.m["n2"] = kw["n2"] + self.m["n2"][k:]
            self.m["d"] = kw["d"] + self.m["d"][k:]
            self.m["nlay"] = k
        self.o = MultimediaParams(**kw)

    def key(self):  # of the layers only the first is compared
        return repr((self.m["n1"] + 0., self.m["n3"] + 0., self.m["n2"][0] + 0., self.m["d"][0] + 0., self.m["nlay"]))

    def step(self, c):
        k = c.r.choice(["n1", "n3", "layers"])
        if k == "layers":
            q = c.r.randint(1, 3)
            n2, d = [num(c) for _ in range(q)], [num(c) for _ in range(q)]
            self.o.set_layers(c.r.choice([n2, np.array(n2)]), d)
            self.m["n2"] = n2 + self.m["n2"][q:]
            self.m["d"] = d + self.m["d"][q:]
            self.m["nlay"] = q
        else:
            self.set(k, num(c))
        return "set " + k

    def readback(self, c):
        k = c.r.choice(["n2", "d"])
        v = getattr(self.o, "get_" + k)(copy=False)
        v[2] = 5.5
        self.m[k] = self.m[k][:2] + [5.5]
        w = getattr(self.o, "get_" + k)()
        w[0] = 777.
        t = str(self.o)
        for x in (self.m["n1"], self.m["n3"], self.m["n2"][0], self.m["d"][1]):
            c.check(str(float(x)) in t or str(x) in t, "MultimediaParams:str", "%r not in %r", x, t)


class PSeq(Par):
    n = "SequenceParams"

    def __init__(self, c):
        from optv.parameters import SequenceParams
        self.m = {"first": 0, "last": 0}
        k = c.r.randint(1, 6)
        kw = {}
        if c.r.random() < .5:
            kw["num_cams"] = k
            names = [b""] * k
        else:
            nm = [wild_name(c) for _ in range(k)]
            kw["image_base"] = nm
            names = [x.encode() for x in nm]
        if c.r.random() < .5:
            kw["frame_range"] = (c.r.randint(-5, 10), c.r.randint(-5, 10 ** 6))
            self.m["first"], self.m["last"] = kw["frame_range"]
        self.o = SequenceParams(**kw)
        self.names(names)

    def names(self, names):
        self.k = len(names)
        for k in [k for k in self.m if "/" in k]:
            del self.m[k]
        for k, v in enumerate(names):
            self.m["img_base_name/%d" % k] = v

    def get(self, k):
        if "/" in k:
            a, b = k.split("/")
            return getattr(self.o, "get_" + a)(int(b))
        return Par.get(self, k)

    def step(self, c):
        q = c.r.random()
        if q < .25:
            k = c.r.choice([self.k, self.k, c.r.randint(1, 6)])
            nm = [name(c) for _ in range(k)]
            fl = (c.r.randint(0, 10), c.r.randint(0, 10 ** 6))
            f = os.path.join(c.scratch, "seq.par")
            open(f, "w").write("".join(x + "\n" for x in nm) + "%d\n%d\n" % fl)
            self.o.read_sequence_par(f.encode(), k)
            self.names([x.encode() for x in nm])
            self.m["first"], self.m["last"] = fl
            return "read"
        if q < .6:
            k, v = c.r.randrange(self.k), wild_name(c) if c.r.random() < .9 else "n" * 239
            self.o.set_img_base_name(k, v)
            self.m["img_base_name/%d" % k] = v.encode()
            return "set name"
        self.set(c.r.choice(["first", "last"]), c.r.randint(-10, 10 ** 6))
        return "set"

    def readback(self, c):
        pass


class PCtrl(Par):
    n = "ControlParams"

    def __init__(self, c):
        from optv.parameters import ControlParams
        k = c.r.randint(1, 6)
        fl = [f for f in ("hp", "allcam", "headers") if c.r.random() < .5]
        self.m = {"hp_flag": "hp" in fl, "allCam_flag": "allcam" in fl, "tiff_flag": "headers" in fl, "chfield": 0,
                  "image_size": (0, 0), "pixel_size": (0., 0.)}
        kw = {}
        if c.r.random() < .6:
            kw["image_size"] = self.m["image_size"] = (c.r.randint(1, 4000), c.r.randint(1, 4000))
        if c.r.random() < .6:
            kw["pixel_size"] = self.m["pixel_size"] = (num(c), num(c))
        mm = {"n1": 0., "n3": 0., "n2": [0., 0., 0.], "d": [0., 0., 0.], "nlay": 1}
        if c.r.random() < .6:
            kw["cam_side_n"] = mm["n1"] = num(c)
        if c.r.random() < .6:
            kw["object_side_n"] = mm["n3"] = num(c)
        if c.r.random() < .6:
            q = c.r.randint(1, 3)
            kw["wall_ns"], kw["wall_thicks"] = [num(c) for _ in range(q)], [num(c) for _ in range(q)]
            mm["n2"] = kw["wall_ns"] + mm["n2"][q:]
            mm["d"] = kw["wall_thicks"] + mm["d"][q:]
            mm["nlay"] = q
        self.o = ControlParams(k, **(dict(kw, flags=fl) if fl or c.r.random() < .5 else kw))
        self.mm = PMM(c, self.o.get_multimedia_params(), mm)
        self.names([b""] * k, [b""] * k)

    def key(self):
        return Par.key(self) + self.mm.key()

    def names(self, a, b):
        self.k = len(a)
        for k in [k for k in self.m if "/" in k]:
            del self.m[k]
        for k in range(len(a)):
            self.m["img_base_name/%d" % k], self.m["cal_img_base_name/%d" % k] = a[k], b[k]
        self.m["num_cams"] = self.k

    get = PSeq.get

    def step(self, c):
        q = c.r.random()
        if q < .2:
            k = c.r.choice([self.k, c.r.randint(1, 6)])
            a, b = [name(c) for _ in range(k)], [name(c) for _ in range(k)]
            v = [c.r.randint(0, 1), c.r.randint(0, 1), c.r.randint(0, 1), c.r.randint(1, 2000), c.r.randint(1, 2000), num(c), num(c), c.r.randint(0, 2), num(c), num(c), num(c), num(c)]
            f = os.path.join(c.scratch, "ptv.par")
            open(f, "w").write("%d\n" % k + "".join("%s\n%s\n" % x for x in zip(a, b)) + "".join((("%d" % x) if isinstance(x, int) else fnum(x)) + "\n" for x in v))
            self.o.read_control_par(f.encode())
            self.names([x.encode() for x in a], [x.encode() for x in b])
            self.m.update(hp_flag=bool(v[0]), allCam_flag=bool(v[1]), tiff_flag=bool(v[2]), image_size=(v[3], v[4]), pixel_size=(v[5], v[6]), chfield=v[7])
            # the same multimedia object, with the new values
            self.mm.m.update(n1=v[8], n2=[v[9], 0., 0.], n3=v[10], d=[v[11], 0., 0.], nlay=1)
            return "read"
        if q < .35:
            k, v = c.r.randrange(self.k), wild_name(c)
            w = c.r.choice(["img_base_name", "cal_img_base_name"])
            getattr(self.o, "set_" + w)(k, v)
            self.m["%s/%d" % (w, k)] = v.encode()
            return "set " + w
        if q < .5:
            return self.mm.step(c)
        k = c.r.choice(["hp_flag", "allCam_flag", "tiff_flag", "chfield", "image_size", "pixel_size"])
        v = (c.r.random() < .5) if "flag" in k else c.r.randint(0, 2) if k == "chfield" else (c.r.randint(1, 5000), c.r.randint(1, 5000)) if k == "image_size" else (num(c), num(c))
        self.set(k, v)
        return "set " + k

    def verify(self, c, what):
        Par.verify(self, c, what)
        self.mm.verify(c, what)
        c.check(self.o.get_multimedia_params() == self.mm.o, "ControlParams:mm", "%s: not the multimedia object it had", what)

    def readback(self, c):
        if c.r.random() < .5:
            self.mm.readback(c)


class PTarg(Par):
    n = "TargetParams"
    comparable = False

    def __init__(self, c):
        from optv.parameters import TargetParams
        self.m = {"max_discontinuity": 0, "grey_thresholds": [0] * 4, "pixel_count_bounds": (0, 1000), "xsize_bounds": (0, 100),
                  "ysize_bounds": (0, 100), "min_sum_grey": 0, "cross_size": 2}
        kw = {}
        for k, mk in (("discont", "max_discontinuity"), ("min_sum_grey", "min_sum_grey"), ("cross_size", "cross_size")):
            if c.r.random() < .5:
                kw[k] = self.m[mk] = c.r.randint(0, 500)
        for k in ("pixel_count_bounds", "xsize_bounds", "ysize_bounds"):
            if c.r.random() < .5:
                kw[k] = self.m[k] = (c.r.randint(0, 9), c.r.randint(10, 999))
        if c.r.random() < .5:
            q = c.r.randint(1, 4)
            kw["gvthresh"] = [c.r.randint(1, 255) for _ in range(q)]
            self.m["grey_thresholds"] = kw["gvthresh"] + [0] * (4 - q)
        self.o = TargetParams(**kw)

    def step(self, c):
        if c.r.random() < .25:
            v = [c.r.randint(0, 900) for _ in range(13)]
            f = os.path.join(c.scratch, "targ.par")
            open(f, "w").write("".join("%d\n" % x for x in v))
            self.o.read(f.encode())
            self.m.update(grey_thresholds=v[:4], max_discontinuity=v[4], pixel_count_bounds=(v[5], v[6]), xsize_bounds=(v[7], v[8]),
                          ysize_bounds=(v[9], v[10]), min_sum_grey=v[11], cross_size=v[12])
            return "read"
        k = c.r.choice(list(self.m))
        if k == "grey_thresholds":
            q = c.r.randint(1, 4)
            v = [c.r.randint(0, 255) for _ in range(q)]
            self.o.set_grey_thresholds(v)
            self.m[k] = v + self.m[k][q:]
        elif "bounds" in k:
            self.set(k, (c.r.randint(0, 9), c.r.randint(10, 999)))
        else:
            self.set(k, c.r.randint(0, 300))
        return "set " + k

    def readback(self, c):
        q = c.r.randint(0, 4)
        c.same(self.o.get_grey_thresholds(num_cams=q), self.m["grey_thresholds"][:q], "TargetParams:grey_thresholds", "first %d thresholds" % q)
        v = self.o.get_grey_thresholds(copy=False)
        v[3] = 91
        self.m["grey_thresholds"] = self.m["grey_thresholds"][:3] + [91]
        w = self.o.get_grey_thresholds()
        w[0] = 5555


class PCal(Par):
    n = "Calibration"
    comparable = False
    keys = {"pos": 3, "angles": 3, "primary_point": 3, "radial_distortion": 3, "decentering": 2, "affine_trans": 2, "glass_vec": 3}

    def __init__(self, c):
        from optv.calibration import Calibration
        self.m = {k: [0.] * n for k, n in self.keys.items()}
        self.m["affine_trans"] = [1., 0.]
        kw = {}
        for k, mk in (("pos", "pos"), ("angs", "angles"), ("prim_point", "primary_point"), ("rad_dist", "radial_distortion"), ("decent", "decentering"), ("affine", "affine_trans"), ("glass", "glass_vec")):
            if c.r.random() < .5:
                v = [num(c) for _ in range(self.keys[mk])]
                kw[k] = np.array(v)
                self.m[mk] = v
        self.o = Calibration(**kw)
        self.core = None

    def get(self, k):
        return getattr(self.o, "get_" + ("affine" if k == "affine_trans" else k))()

    def values(self):
        return np.array(sum((self.m[k] for k in ("pos", "angles", "primary_point", "glass_vec", "radial_distortion", "decentering", "affine_trans")), []))

    def verify(self, c, what):
        Par.verify(self, c, what)
        c.same(self.o.get_rotation_matrix(), c.core.rotation(self.values()), "Calibration:rotation", what + ": rotation matrix of the angles")

    def write_ori(self, c, f, v, dm):
        with open(f, "w") as o:
            o.write("%s %s %s\n%s %s %s\n\n" % tuple(fnum(x) for x in v[:6]))
            for r in dm:
                o.write("%s %s %s\n" % tuple(fnum(x) for x in r))
            o.write("\n%s %s\n%s\n\n%s %s %s\n" % tuple(fnum(x) for x in (v[6], v[7], v[8], v[9], v[10], v[11])))

    def step(self, c):
        q = c.r.random()
        if q < .25:
            v = [num(c) for _ in range(19)]
            dm = c.core.rotation(np.array(v))
            ori, add, fb = (os.path.join(c.scratch, x) for x in ("a.ori", "a.addpar", "b.addpar"))
            self.write_ori(c, ori, v, dm)
            open(add, "w").write(" ".join(fnum(x) for x in v[12:]) + "\n")
            other = [num(c) for _ in range(7)]
            open(fb, "w").write(" ".join(fnum(x) for x in other) + "\n")
            mode = c.r.choice(["add", "both", "fallback", "fallback alone", "none"])
            ext = v[12:]
            if mode == "add":
                self.o.from_file(ori.encode(), add.encode())
            elif mode == "both":
                self.o.from_file(ori.encode(), add.encode(), fb.encode())
            elif mode == "fallback":
                os.remove(add)
                self.o.from_file(ori.encode(), add.encode(), fb.encode())
                ext = other
            elif mode == "fallback alone":
                self.o.from_file(ori.encode(), fallback_file=fb.encode())
                ext = other
            else:
                self.o.from_file(ori.encode())
                ext = [0., 0., 0., 0., 0., 1., 0.]
            self.m.update(pos=v[0:3], angles=v[3:6], primary_point=v[6:9], glass_vec=v[9:12], radial_distortion=list(ext[:3]), decentering=list(ext[3:5]), affine_trans=list(ext[5:]))
            c.count("calibrations read, " + mode)
            return "read " + mode
        k = c.r.choice(list(self.keys))
        v = [num(c) for _ in range(self.keys[k])]
        a = np.array(v)
        if c.r.random() < .3:
            a = np.repeat(a, 2)[::2]
        getattr(self.o, "set_" + k)(a)
        self.m[k] = v
        return "set " + k

    def readback(self, c):
        # what is written to files can be read by another object
        from optv.calibration import Calibration
        ori, add = (os.path.join(c.scratch, x) for x in ("w.ori", "w.addpar"))
        self.o.write(ori.encode(), add.encode())
        other = Calibration()
        other.from_file(ori.encode(), add.encode())
        a, b = calarr(self.o), calarr(other)
        tol = np.array([2e-8] * 6 + [6e-5] * 3 + [2e-8] * 10) + 1e-7 * abs(a)  # the decimals in the files
        c.check(bool((abs(a - b) <= tol).all()), "Calibration:write", "written %s, read %s", a.tolist(), b.tolist())
        g = self.o.get_pos()
        g[0] = 1e9


def a_objects(c, core):
    c.core = core
    cls = c.r.choice([PTrack, PVol, PMM, PSeq, PCtrl, PTarg, PCal])
    ob = [cls(c) for _ in range(2)]
    hist = []
    for o in ob:
        o.verify(c, "new " + o.n)
    for k in range(25):
        o = c.r.choice(ob)
        w = o.step(c)
        hist.append(w)
        for x in ob:
            x.verify(c, "%s after %s" % (x.n, "; ".join(hist[-4:])))
        if c.r.random() < .3:
            o.readback(c)
            o.verify(c, o.n + " after access")
        ob[0].compare_with(c, ob[1])
        ob[0].compare_with(c, ob[0])
        c.count("object operations")
    # two objects made alike are equal, until one value changes
    if cls is PTrack:
        from optv.parameters import TrackingParams
        mk = lambda: TrackingParams(accel_lim=1., angle_lim=2., velocity_lims=[[1, 2], [3, 4], [5, 6]], add_particle=1)
        ch = [(lambda o, k=k: getattr(o, "set_" + k)(99)) for k in PTrack.keys + PTrack.more]
    elif cls is PVol:
        from optv.parameters import VolumeParams
        mk = lambda: VolumeParams(x_span=(1, 2), z_spans=[(3, 4), (5, 6)], pixels_x=1, pixels_y=2, pixels_tot=3, ref_gray=4, epipolar_band=5, min_correlation=6)
        ch = [(lambda o, k=k: getattr(o, "set_" + k)(99)) for k in PVol.keys] + [(lambda o, k=k, v=v: getattr(o, "set_" + k)(v)) for k in PVol.arrs for v in ((99, getattr(mk(), "get_" + k)()[1]), (getattr(mk(), "get_" + k)()[0], 99))]
    elif cls is PSeq:
        from optv.parameters import SequenceParams
        mk = lambda: SequenceParams(image_base=["a", "b", "c"], frame_range=(1, 2))
        ch = [lambda o: o.set_first(9), lambda o: o.set_last(9)] + [(lambda o, k=k: o.set_img_base_name(k, "zz")) for k in range(3)]
    elif cls is PCtrl:
        from optv.parameters import ControlParams

        def mk():
            o = ControlParams(3, ["hp"], (10, 20), (.1, .2), 1., [1.5], [4.], 1.3)
            for k in range(3):
                o.set_img_base_name(k, "img%d" % k)
                o.set_cal_img_base_name(k, "cal%d" % k)
            return o
        ch = [lambda o: o.set_hp_flag(False), lambda o: o.set_allCam_flag(True), lambda o: o.set_tiff_flag(True), lambda o: o.set_chfield(1),
              lambda o: o.set_image_size((11, 20)), lambda o: o.set_image_size((10, 21)), lambda o: o.set_pixel_size((.11, .2)), lambda o: o.set_pixel_size((.1, .21))]
        ch += [(lambda o, k=k: o.set_img_base_name(k, "zz")) for k in range(3)] + [(lambda o, k=k: o.set_cal_img_base_name(k, "zz")) for k in range(3)]
        ch += [lambda o: o.get_multimedia_params().set_n1(9), lambda o: o.get_multimedia_params().set_n3(9), lambda o: o.get_multimedia_params().set_layers([1.6], [4.]),
               lambda o: o.get_multimedia_params().set_layers([1.5], [4.1]), lambda o: o.get_multimedia_params().set_layers([1.5, 1.5], [4., 4.])]
    else:
        ch, mk = [], None
    if mk:
        c.check(mk() == mk() and not mk() != mk(), cls.n + ":eq", "two alike are not equal")
        for k, f in enumerate(ch):
            x, y = mk(), mk()
            f(y)
            c.check(not (x == y) and x != y and not (y == x), cls.n + ":eq-change", "still equal after change %d", k)
    c.distinct("ob", cls.n, [repr(sorted(o.m.items())) for o in ob], hist)
    c.sample("%s: %s" % (cls.n, "; ".join(hist[:8])))


# ------------------------------------------------------------ targets and frames
def target_lines(tg):
    return "%d\n" % len(tg) + "".join("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n" % tuple([int(t[0]), t[1], t[2]] + [int(x) for x in t[3:]]) for t in tg)


def a_targets(c, core):
    from optv.tracking_framebuf import TargetArray, Target, read_targets
    n = c.r.choice([0, 1, 3, 50]) if c.r.random() < .97 else c.r.choice([2100, 6000, 12000])
    ys = [v / 1e4 for v in c.r.sample(range(20000000), n)]  # no two alike
    rows = np.array([[k, round(c.u(0, 2000), 4), ys[k], c.r.randint(0, 500), c.r.randint(0, 40), c.r.randint(0, 40), c.r.randint(0, 90000), c.r.randint(-1, 999)] for k in range(n)]).reshape(n, 8)
    if n and c.r.random() < .3:  # nearly sorted already
        rows[:, 2] = np.sort(rows[:, 2])
        i = c.r.randrange(n)
        rows[[i, max(0, i - 1)], 2] = rows[[max(0, i - 1), i], 2]
    if n and c.r.random() < .3:  # any numbers
        rows[:, 0] = [c.r.randint(-1, 2 * n) for _ in range(n)]
    ta = make_targets(c, rows)
    c.same(targlist(ta), rows, "targets", "values set")
    base, fr = os.path.join(c.scratch, "tg" + c.r.choice(["", ".", "_"])), c.r.choice([1, 7, 42, 123, 10001])
    ta.write(base.encode(), fr)
    got = read_targets(base, fr)
    c.check(len(got) == n, "targets-io", "%d read of %d written", len(got), n)
    c.same(targlist(got), rows, "targets-io", "values read")
    import glob
    f = glob.glob(base + "*_targets")
    c.check(len(f) == 1, "targets-file", "files %s", f)
    v = [[float(x) for x in l.split()] for l in open(f[0])]
    c.same(v[0], [n], "targets-file", "count in file")
    c.same(np.array(v[1:]).reshape(n, 8), rows, "targets-file", "values in file")
    os.remove(f[0])
    ta.sort_y()
    o = sorted(range(n), key=lambda k: rows[k][2])
    w = rows[o].copy() if n else rows
    if n:
        w[:, 0] = np.arange(n)
    c.same(targlist(ta), w, "sort_y", "sorted targets")
    num = lambda: c.r.choice([0, 1, -1, -999, 255, 70000, c.r.randint(-10 ** 9, 10 ** 9), 2 ** 31 - 1])
    v = [num() for _ in range(6)] + [c.r.choice([0., -0.25, 1.5, c.u(-1e4, 1e4), 1e15]) for _ in range(2)]
    t = Target(pnr=v[0], tnr=v[1], x=v[6], y=v[7], n=v[2], nx=v[3], ny=v[4], sumg=v[5])
    got = (t.pnr(), t.tnr(), t.pos(), t.count_pixels(), t.sum_grey_value())
    c.check(got == (v[0], v[1], (v[6], v[7]), tuple(v[2:5]), v[5]), "target", "values of a target: %s, set %s", got, v)
    c.check(len(list(ta)) == n and len(TargetArray(0)) == 0, "targets", "iteration")
    c.distinct("ta", rows.tolist())


def a_frames(c, core):
    from optv.tracking_framebuf import Frame
    # frames without particles: see C20
    nc, n = c.r.randint(1, 4), c.r.choice([1, 2, 12, 60]) if c.r.random() < .97 else c.r.choice([2100, 5000])
    fr = c.r.choice([1, 20, 333, 10001])
    d = os.path.join(c.scratch, "fr")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tg = [np.array([[k, round(c.u(0, 999), 4), round(c.u(0, 999), 4), 5, 2, 2, 90, -1] for k in range(c.r.choice([1, 5, 70]) if n < 1000 else 3000)]) for _ in range(nc)]
    pos = np.array([[round(c.u(-99, 99), 3) for _ in range(3)] for _ in range(n)]).reshape(n, 3)
    cor = [[c.r.randint(0, len(tg[k]) - 1) if k < nc and c.r.random() < .8 else -1 for k in range(4)] for _ in range(n)]
    nb = []
    for k in range(nc):
        b = d + "/cam%d." % k
        open("%s%04d_targets" % (b, fr), "w").write(target_lines(tg[k]))
        nb.append(b.encode())
    open(d + "/rt.%d" % fr, "w").write("%d\n" % n + "".join("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % ((k + 1,) + tuple(pos[k]) + tuple(cor[k])) for k in range(n)))
    open(d + "/ptv.%d" % fr, "w").write("%d\n" % n + "".join("%4d %4d %10.3f %10.3f %10.3f\n" % ((c.r.randint(-1, 9), c.r.choice([-2, 3])) + tuple(pos[k])) for k in range(n)))
    prio = None
    if c.r.random() < .5:
        prio = (d + "/add").encode()
        open(d + "/add.%d" % fr, "w").write("%d\n" % n + "".join("%4d %4d %10.3f %10.3f %10.3f %d\n" % ((-1, -2) + tuple(pos[k]) + (4,)) for k in range(n)))
    a = ((d + "/rt").encode(), (d + "/ptv").encode())
    how = c.r.randint(0, 2)
    if how == 0:
        f = Frame(nc, corres_file_base=a[0], linkage_file_base=a[1], prio_file_base=prio, target_file_base=nb, frame_num=fr)
    elif how == 1:
        f = Frame(nc)
        c.check(bool(f.read(a[0], a[1], nb, fr, prio)), "frame-read", "reading a frame")
    else:
        f = Frame(nc, a[0], a[1], prio, nb, fr)
        c.check(bool(f.read(a[0], a[1], nb, fr, prio)), "frame-read", "reading a frame twice")
    c.same(f.positions(), pos, "frame-positions", "positions of %d particles" % n)
    for k in range(nc):
        w = np.array([tg[k][r[k]][1:3] if r[k] >= 0 else (np.nan, np.nan) for r in cor]).reshape(n, 2)
        c.same(f.target_positions_for_camera(k), w, "frame-targets", "targets of camera %d of %d" % (k, nc))
    shutil.rmtree(d, ignore_errors=True)
    c.distinct("fr", nc, pos.tolist())


# ------------------------------------------------------------ tracking
def dirfiles(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def a_track(c, core):
    from optv.tracker import Tracker
    from optv.parameters import TrackingParams, SequenceParams
    s = Scene(c, c.r.choice([1, 2, 3, 4, 4]), mild=c.r.random() < .5, nlay=1)
    if c.r.random() < .4:  # so much distortion that the tolerance of its correction shows
        for a in s.cals:
            a[12] = c.u(-2e-2, 2e-2)
    cpar, vpar = s.cpar(), s.vpar()
    cals = [mkcal(a) for a in s.cals]
    n, nf, first = c.r.choice([1, 8, 25, 25]), c.r.choice([2, 3, 4, 6, 8]), c.r.choice([1, 10001, 98])
    v = s.half * .03
    ps = s.points(c, n) * .8
    vel = np.array([[c.u(-v, v) for _ in range(3)] for _ in range(n)])
    links = []
    root = os.path.join(c.scratch, "trk")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + "/A")
    mode, prev, there = c.r.choice([1, 1, 3, 2]), {}, c.r.choice([.95, .8])
    total, crowd = 0, c.r.random() < .04
    if crowd:
        c.count("trackings with many detections")
    for k in range(nf):
        p = ps + vel * k + np.array([c.u(-v, v) * .1 for _ in range(3 * n)]).reshape(n, 3)
        ids = np.full((n, 4), -1)
        seen = []
        for cam in range(s.nc):
            px = core.pixel(s.cp_arr(), core.project(s.cals[cam], s.mm_arr(), p, False), True)
            rows = [[i, px[i][0], px[i][1]] for i in range(n) if c.r.random() < .95]
            if crowd:  # many more detections than particles
                rows += [[-1, c.u(0, s.imx), c.u(0, s.imy)] for _ in range(2500)]
            rows.sort(key=lambda t: t[2])
            for t, r in enumerate(rows):
                if r[0] >= 0:
                    ids[r[0], cam] = t
            seen.append(rows)
        keep = [i for i in range(n) if (ids[i] >= 0).sum() >= min(2, s.nc) and c.r.random() < there]
        for cam, rows in enumerate(seen):
            tg = [[t, r[1], r[2], 20, 4, 4, 800, keep.index(r[0]) if r[0] in keep else -1] for t, r in enumerate(rows)]
            open(root + "/A/cam%d.%04d_targets" % (cam + 1, first + k), "w").write(target_lines(tg))
        total += len(keep)
        open(root + "/A/rt_is.%d" % (first + k), "w").write("%d\n" % len(keep) + "".join(
            "%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % ((j + 1,) + tuple(p[i]) + tuple(ids[i])) for j, i in enumerate(keep)))
        if mode == 2:  # the links of an earlier run, with gaps
            back = [prev.get(i, -1) if c.r.random() < .7 else -1 for i in keep]
            rows = [[b, -2] + list(p[i]) for b, i in zip(back, keep)]
            if k:
                for j, b in enumerate(back):
                    if b >= 0:
                        links[-1][b][1] = j
            links.append(rows)
            prev = {i: j for j, i in enumerate(keep)}
    if mode == 2:
        for k, rows in enumerate(links):
            for base, tail in (("ptv_is", ""), ("added", "    4")):
                open(root + "/A/%s.%d" % (base, first + k), "w").write("%d\n" % len(rows) + "".join("%4d %4d %10.3f %10.3f %10.3f%s\n" % (tuple(r) + (tail,)) for r in rows))
        c.count("backward runs on existing links")
    shutil.copytree(root + "/A", root + "/B")
    lim = v * 2.5
    tp = np.array([lim * 2, 100., -lim, lim, -lim, lim, -lim, lim, c.r.randint(0, 1)], dtype=float)
    tpar = TrackingParams(accel_lim=tp[0], angle_lim=tp[1], velocity_lims=[[-lim, lim]] * 3, add_particle=int(tp[8]))
    last = first + nf - 1
    tol = 10 ** (c.u(-6, -3) if c.r.random() < .5 else c.u(-3, 1))
    how = c.r.choice(["full", "steps", "many steps"])
    begun, stop = -1, last
    if how != "full" and mode & 1:
        if c.r.random() < .3:  # started over after some steps
            begun = c.r.randint(0, nf - 1)
            c.count("trackings started over")
        if mode == 1 and c.r.random() < .4:  # finished before the end
            stop = c.r.randint(first, last)
            c.count("trackings finished early", int(stop < last))
    import ctypes
    names = (ctypes.c_char_p * 4)(*[(root + "/A/cam%d." % (k + 1)).encode() for k in range(s.nc)])
    core.call("vc_track", s.nc, np.ascontiguousarray(np.concatenate(s.cals)), s.cp_arr(), s.mm_arr(), s.vp_arr(), tp, first, last,
              names, (root + "/A/rt_is").encode(), (root + "/A/ptv_is").encode(), (root + "/A/added").encode(), float(tol), mode, begun, stop)
    spar = SequenceParams(image_base=[root + "/B/cam%d." % (k + 1) for k in range(s.nc)], frame_range=(first, last))
    naming = {"corres": (root + "/B/rt_is").encode(), "linkage": (root + "/B/ptv_is").encode(), "prio": (root + "/B/added").encode()}
    tr = Tracker(cpar, vpar, tpar, spar, cals, naming, tol)
    # the parameters stay alive in the tracker
    del cpar, vpar, tpar, spar, cals, naming
    if mode == 2:
        before = dirfiles(root + "/B")
    elif how == "full":
        tr.full_forward()
    else:
        if begun >= 0:
            tr.restart()
            for k in range(begun):
                tr.step_forward()
        tr.restart()
        k = first
        c.check(tr.current_step() == first, "track-step", "first step %d of %d", tr.current_step(), first)
        while k < stop or stop == last:
            if not tr.step_forward():
                break
            k += 1
            c.check(tr.current_step() == k, "track-step", "step %d, expected %d", tr.current_step(), k)
        c.check(k == stop, "track-step", "ended at %d, expected %d", k, stop)
        if stop == last and how == "many steps":
            c.check(not tr.step_forward() and tr.current_step() == last, "track-step", "goes on after the end")
        tr.finalize()
    if mode & 2:
        tr.full_backward()
    a, b = dirfiles(root + "/A"), dirfiles(root + "/B")
    c.check(sorted(a) == sorted(b), "track-files", "files %s, expected %s", sorted(set(b) - set(a)), sorted(set(a) - set(b)))
    for f in a:
        c.check(a[f] == b.get(f), "track-output", "%s after tracking (%s, mode %d, %d cameras) differs from the core's:\n%s\n--- expected\n%s",
                f, how, mode, s.nc, (b.get(f) or b"")[:300].decode(errors="replace"), a[f][:300].decode(errors="replace"))
    if mode == 2:
        c.count("frames changed by backward runs", sum(before[f] != b.get(f) for f in before))
    links = sum(1 for f in a if f.startswith("ptv_is") for l in a[f].decode().splitlines()[1:] if l.split() and int(l.split()[0]) >= 0)
    c.count("links in tracked files", links)
    c.count("particles added by tracking", sum(int(a[f].split()[0]) for f in a if f.startswith("rt_is")) - total)
    shutil.rmtree(root, ignore_errors=True)
    c.distinct("tk", s.nc, n, nf, links, total)
    c.sample("tracking %d frames of %d particles, %d cameras, %s: %d links" % (nf, n, s.nc, how, links))


AREAS = [("transforms", a_transforms), ("projection", a_imgcoord), ("epipolar curves", a_epipolar), ("preprocessing", a_preprocess),
         ("recognition", a_recognition), ("matched coordinates", a_matched), ("matching", a_correspond), ("positions", a_positions),
         ("calibration", a_calibrate), ("objects", a_objects), ("targets", a_targets), ("frames", a_frames), ("tracking", a_track),
         ("objects", a_objects), ("matching", a_correspond), ("dumbbell layouts", a_dumbbell_layout)]

if __name__ == "__main__":
    main(AREAS, RULE, os.environ["VERIF_CORE"])
