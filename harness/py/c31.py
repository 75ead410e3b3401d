"""C31: objects of the Python bindings own their memory: histories of creation, sharing, change and
destruction under AddressSanitizer with models of the values; wrong arguments; memory growth."""
import ctypes, gc, os, shutil, sys
import numpy as np
from pylib import Scene, mkcal, calarr, layouts, main
import c30
from c30 import (PTrack, PVol, PMM, PSeq, PCtrl, PTarg, PCal, make_targets, targlist, detections, target_lines, blobs, dirfiles)

RULE = ("an evaluation reads an object (or tries an operation that must raise, or measures memory) and compares with the model; "
        "distinct: different histories of creation, sharing and destruction")


def churn(c):
    """reuse freed memory"""
    x = [np.full(c.r.choice([1, 3, 7, 10, 30, 64, 200, 1000]), 0x5a5a5a5a) for _ in range(c.r.randint(3, 25))]
    y = [bytes([0x77]) * c.r.choice([16, 48, 56, 112, 240, 800]) for _ in range(10)]
    del x, y


# ------------------------------------------------------------ handles
class HPar:
    """a parameters object with its model"""
    def __init__(self, c, p):
        self.p = p

    def verify(self, c, what):
        self.p.verify(c, what)

    def derive(self, c):
        p = self.p
        if isinstance(p, PCtrl):
            return HPar(c, p.mm)
        if isinstance(p, PMM):
            k = c.r.choice(["n2", "d"])
            return HView(getattr(p.o, "get_" + k)(copy=False), p.m, k)
        if isinstance(p, PVol):
            k = c.r.choice(PVol.arrs)
            return HView(getattr(p.o, "get_" + k)(copy=False), p.m, k)
        if isinstance(p, PTarg):
            q = c.r.randint(1, 4)
            return HView(p.o.get_grey_thresholds(num_cams=q, copy=False), p.m, "grey_thresholds", q)
        if isinstance(p, PCal):
            return HConst(p.o.get_pos())
        return None

    def change(self, c):
        self.p.step(c)
    kind = property(lambda s: s.p.n)


class HView:
    """an array that shares the memory of an object"""
    kind = "view"

    def __init__(self, a, m, k, n=None):
        self.a, self.m, self.k, self.n = a, m, k, n

    def verify(self, c, what):
        w = list(self.m[self.k])[:self.n]
        c.check(list(self.a) == w, "view", "%s: view of %s holds %s, expected %s", what, self.k, list(self.a), w)

    def change(self, c):
        i = c.r.randrange(len(self.a))
        v = c.r.randint(0, 200)
        self.a[i] = v
        x = list(self.m[self.k])
        x[i] = float(v) if self.a.dtype == float else v
        self.m[self.k] = x

    def derive(self, c):
        n = c.r.randint(1, len(self.a))
        return HView(self.a[:n], self.m, self.k, n)


class HConst:
    """an array or value that must not change any more"""
    kind = "array"

    def __init__(self, a):
        self.a, self.w = a, np.array(a, copy=True)

    def verify(self, c, what):
        c.check(bool(np.array_equal(self.a, self.w, equal_nan=True)), "copy", "%s: returned array changed", what)

    def change(self, c):
        pass

    def derive(self, c):
        return None


class HArr:
    kind = "TargetArray"

    def __init__(self, a, rows):
        self.a, self.rows = a, rows  # a row for each target, shared with the Target objects

    def verify(self, c, what):
        c.check(len(self.a) == len(self.rows), "array-len", "%s: %d targets, expected %d", what, len(self.a), len(self.rows))
        for t, r in zip(self.a, self.rows):
            vt(c, t, r, what)

    def change(self, c):
        if not self.rows:
            return
        q = c.r.random()
        if q < .3:
            self.a.sort_y()
            s = sorted([list(r) for r in self.rows], key=lambda r: r[2])
            for k, (r, v) in enumerate(zip(self.rows, s)):
                r[:] = v
                r[0] = k
        else:
            k = c.r.randrange(len(self.rows))
            st(c, self.a[k], self.rows[k])

    def derive(self, c):
        if not self.rows:
            return None
        k = c.r.randrange(len(self.rows))
        return HTarg(self.a[k], self.rows[k])


class HTarg:
    kind = "Target"

    def __init__(self, t, row):
        self.t, self.row = t, row

    def verify(self, c, what):
        vt(c, self.t, self.row, what)

    def change(self, c):
        st(c, self.t, self.row)

    def derive(self, c):
        return HTarg(self.t, self.row)


def vt(c, t, r, what):
    g = [t.pnr(), *t.pos(), *t.count_pixels(), t.sum_grey_value(), t.tnr()]
    c.check(g == list(r), "target", "%s: target holds %s, expected %s", what, g, list(r))


def st(c, t, r):
    q = c.r.randint(0, 4)
    if q == 0:
        r[1], r[2] = c.u(0, 1000), c.u(0, 1000)
        t.set_pos((r[1], r[2]))
    elif q == 1:
        r[0] = c.r.randint(-1, 5000)
        t.set_pnr(r[0])
    elif q == 2:
        r[7] = c.r.randint(-1, 5000)
        t.set_tnr(r[7])
    elif q == 3:
        r[3:6] = [c.r.randint(0, 99) for _ in range(3)]
        t.set_pixel_counts(*r[3:6])
    else:
        r[6] = c.r.randint(0, 99999)
        t.set_sum_grey_value(r[6])


class HMatch:
    kind = "MatchedCoords"

    def __init__(self, m):
        self.m, self.w = m, m.as_arrays()

    def verify(self, c, what):
        p, n = self.m.as_arrays()
        c.check(bool(np.array_equal(p, self.w[0]) and np.array_equal(n, self.w[1])), "matched", "%s: matched coordinates changed", what)

    def change(self, c):
        pass

    def derive(self, c):
        return HConst(c.r.choice(self.m.as_arrays()))


class HFrame:
    kind = "Frame"

    def __init__(self, f, nc, src):
        self.f, self.nc, self.src = f, nc, src
        self.w = src.wants[0]

    def verify(self, c, what):
        c.check(bool(np.array_equal(self.f.positions(), self.w[0])), "frame", "%s: positions in frame", what)
        for k in range(self.nc):
            c.check(bool(np.array_equal(self.f.target_positions_for_camera(k), self.w[1][k], equal_nan=True)), "frame", "%s: targets in frame", what)

    def change(self, c):
        k = c.r.randint(0, 2)
        if k == 2:  # a frame that isn't there: read() reports it, and leaves no particles
            c.check(not self.f.read(*self.src.names(99)), "frame-missing", "reading a missing frame succeeds")
            self.w = (np.empty((0, 3)), [np.empty((0, 2))] * self.nc)
        else:
            self.f.read(*self.src.names(k))
            self.w = self.src.wants[k]

    def derive(self, c):
        return HConst(self.f.positions() if c.r.random() < .5 else self.f.target_positions_for_camera(c.r.randrange(self.nc)))


class FrameFiles:
    """two frames in files"""
    def __init__(self, c, nc, d):
        self.d, self.nc, self.wants = d, nc, []
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for fr in range(2):
            n = c.r.randint(1, 30)
            tg = [np.array([[k, round(c.u(0, 999), 4), round(c.u(0, 999), 4), 5, 2, 2, 90, -1] for k in range(c.r.choice([1, 5, 40]))]) for _ in range(nc)]
            pos = np.array([[round(c.u(-99, 99), 3) for _ in range(3)] for _ in range(n)])
            cor = [[c.r.randint(0, len(tg[k]) - 1) if k < nc and c.r.random() < .8 else -1 for k in range(4)] for _ in range(n)]
            for k in range(nc):
                open("%s/cam%d.%04d_targets" % (d, k, fr + 1), "w").write(target_lines(tg[k]))
            open(d + "/rt.%d" % (fr + 1), "w").write("%d\n" % n + "".join("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % ((k + 1,) + tuple(pos[k]) + tuple(cor[k])) for k in range(n)))
            open(d + "/ptv.%d" % (fr + 1), "w").write("%d\n" % n + "".join("%4d %4d %10.3f %10.3f %10.3f\n" % ((-1, -2) + tuple(pos[k])) for k in range(n)))
            self.wants.append((pos, [np.array([tg[k][r[k]][1:3] if r[k] >= 0 else (np.nan, np.nan) for r in cor]) for k in range(nc)]))

    def names(self, k):
        return ((self.d + "/rt").encode(), (self.d + "/ptv").encode(), [("%s/cam%d." % (self.d, i)).encode() for i in range(self.nc)], k + 1, None)


def new_handle(c, core, s, pool, ff):
    from optv.tracking_framebuf import TargetArray, Target, Frame, read_targets
    from optv.correspondences import MatchedCoords
    q = c.r.random()
    if q < .34:
        return HPar(c, c.r.choice([PTrack, PVol, PMM, PSeq, PCtrl, PTarg, PCal])(c))
    if q < .5:
        rows = [[k, c.u(0, 999), c.u(0, 999), 5, 2, 2, 99, -1] for k in range(c.r.choice([0, 1, 3, 20]))]
        return HArr(make_targets(c, rows), rows)
    if q < .58:
        rows = [[k, round(c.u(0, 999), 4), round(c.u(0, 999), 4), 5, 2, 2, 99, -1] for k in range(c.r.choice([0, 1, 3, 20]))]
        b = os.path.join(c.scratch, "h.")
        open(b + "0007_targets", "w").write(target_lines(rows))
        return HArr(read_targets(b, 7), rows)
    if q < .66:
        from optv.segmentation import target_recognition
        from optv.parameters import ControlParams, TargetParams
        img = blobs(c, 40, 30, 5)
        ta = target_recognition(img, TargetParams(gvthresh=[30] * 4, pixel_count_bounds=(1, 500), discont=200), c.r.randint(0, 3), ControlParams(4, image_size=(40, 30), pixel_size=(.01, .01)))
        return HArr(ta, [[int(x) if k in (0, 3, 4, 5, 6, 7) else x for k, x in enumerate(r)] for r in targlist(ta).tolist()])
    if q < .74:
        from optv.orientation import match_detection_to_ref
        ref = s.points(c, 6)
        px = core.pixel(s.cp_arr(), core.project(s.cals[0], s.mm_arr(), ref, False), True)
        ta = match_detection_to_ref(mkcal(s.cals[0]), ref, make_targets(c, [[k, p[0], p[1], 9, 3, 3, 90, -1] for k, p in enumerate(px)]), s.cpar(), 5)
        m = [t for t in ta if t.pnr() >= 0]
        if len(m) != len(ref):
            return None
        return HArr(ta, [[int(x) if k in (0, 3, 4, 5, 6, 7) else x for k, x in enumerate(r)] for r in targlist(ta).tolist()])
    if q < .8:
        t = Target(pnr=1, tnr=2, x=3., y=4., n=5, nx=6, ny=7, sumg=8) if c.r.random() < .7 else Target()
        return HTarg(t, [1, 3., 4., 5, 6, 7, 8, 2] if t.pnr() else [0, 0., 0., 0, 0, 0, 0, 0])
    if q < .9:
        arrs = [h for h in pool if h.kind == "TargetArray"]
        if not arrs:
            return None
        h = c.r.choice(arrs)
        m = MatchedCoords(h.a, s.cpar(), mkcal(s.cals[0]))
        for k, r in enumerate(h.rows):  # numbers the targets
            r[0] = k
        if c.r.random() < .2:
            m.__init__(h.a, s.cpar(), mkcal(s.cals[0]))
        return HMatch(m)
    f = Frame(ff.nc, *(lambda n: (n[0], n[1], None, n[2], n[3]))(ff.names(0)))
    return HFrame(f, ff.nc, ff)


def a_history(c, core):
    c.core = core
    s = Scene(c, 1, nlay=1)
    ff = FrameFiles(c, c.r.randint(1, 4), os.path.join(c.scratch, "ff"))
    pool, hist = [], []
    for step in range(60):
        q = c.r.random()
        if q < .3 or not pool:
            h = new_handle(c, core, s, pool, ff)
            if h is not None:
                pool.append(h)
                hist.append("new " + h.kind)
        elif q < .5:
            h = c.r.choice(pool).derive(c)
            if h is not None:
                pool.append(h)
                hist.append("derive " + h.kind)
                c.count("objects that share memory")
        elif q < .7:
            h = c.r.choice(pool)
            h.change(c)
            hist.append("change " + h.kind)
        elif q < .92:
            k = c.r.randrange(len(pool))
            hist.append("drop " + pool[k].kind)
            del pool[k]
            h = None
            c.count("objects dropped")
            if c.r.random() < .5:
                churn(c)
        else:
            gc.collect()
            churn(c)
        if c.r.random() < .5 and pool:
            h = c.r.choice(pool)
            h.verify(c, "after " + "; ".join(hist[-3:]))
        h = None
    for h in pool:
        h.verify(c, "at the end")
    h = None
    c.r.shuffle(pool)
    while pool:
        pool.pop()
        if pool and c.r.random() < .3:
            c.r.choice(pool).verify(c, "while dropping")
    gc.collect()
    c.distinct("h", hist)
    c.sample("; ".join(hist[:12]))


# ------------------------------------------------------------ temporaries
def a_temporaries(c, core):
    """expressions whose owner is gone before the value is used"""
    from optv.parameters import ControlParams, MultimediaParams, VolumeParams, TargetParams
    from optv.tracking_framebuf import TargetArray, read_targets, Frame
    from optv.correspondences import MatchedCoords
    from optv.orientation import match_detection_to_ref
    n2 = [1.25 + .25 * c.r.randint(0, 3), 1.5, 1.75]
    v = MultimediaParams(n2=n2, d=[1., 2., 3.]).get_n2(copy=False)
    churn(c)
    c.same(v, n2, "view-of-temporary", "n2 of a dropped object")
    v = ControlParams(2, wall_ns=n2, wall_thicks=[1., 2., 3.]).get_multimedia_params().get_d(copy=False)
    churn(c)
    c.same(v, [1, 2, 3], "view-of-temporary", "d of dropped control parameters")
    mm = ControlParams(2, wall_ns=n2, wall_thicks=[1., 2., 3.], cam_side_n=1.25).get_multimedia_params()
    churn(c)
    c.check(mm.get_n1() == 1.25 and list(mm.get_n2()) == n2, "mm-of-temporary", "multimedia parameters of dropped control parameters: %s", str(mm))
    for q in ("X_lay", "Zmin_lay", "Zmax_lay"):
        v = getattr(VolumeParams(x_span=(5, 6), z_spans=[(5, 5), (6, 6)]), "get_" + q)(copy=False)
        churn(c)
        c.same(v, [5, 6], "view-of-temporary", q)
    v = TargetParams(gvthresh=[4, 3, 2, 1]).get_grey_thresholds(copy=False)
    churn(c)
    c.same(v, [4, 3, 2, 1], "view-of-temporary", "grey thresholds")
    rows = [[k, c.u(0, 99), c.u(0, 99), 5, 2, 2, 99, -1] for k in range(c.r.choice([1, 3, 30]))]
    t = make_targets(c, rows)[len(rows) - 1]
    churn(c)
    vt(c, t, rows[-1], "target of a dropped array")
    ts = [x for x in make_targets(c, rows)]
    churn(c)
    for t, r in zip(ts, rows):
        vt(c, t, r, "targets of a dropped array")
    b = os.path.join(c.scratch, "tt.")
    r2 = [[k, round(c.u(0, 999), 4), round(c.u(0, 999), 4), 5, 2, 2, 99, -1] for k in range(5)]
    open(b + "0003_targets", "w").write(target_lines(r2))
    t = read_targets(b, 3)[4]
    churn(c)
    vt(c, t, r2[4], "target read from a file")
    s = Scene(c, 2)
    m = MatchedCoords(make_targets(c, rows), s.cpar(), mkcal(s.cals[0]))
    churn(c)
    p, i = m.as_arrays()
    c.check(sorted(i) == list(range(len(rows))) and bool((np.diff(p[:, 0]) >= 0).all()), "matched", "matched coordinates of a dropped array")
    # the same frame object, read again and again
    ff = FrameFiles(c, 2, os.path.join(c.scratch, "ft"))
    f = Frame(2)
    for k in range(6):
        q = c.r.randint(0, 1)
        f.read(*ff.names(q))
        a = f.positions()
        f.read(*ff.names(1 - q))
        c.same(a, ff.wants[q][0], "frame-copy", "positions got before reading again")
    del f
    churn(c)
    c.same(a, ff.wants[q][0], "frame-copy", "positions of a dropped frame")
    from optv.correspondences import correspondences
    mk = lambda k: make_targets(c, rows)
    ta = [mk(0), mk(1)]
    pos, ids, tot = correspondences(ta, [MatchedCoords(t, s.cpar(), mkcal(a)) for t, a in zip(ta, s.cals)], [mkcal(a) for a in s.cals], s.vpar(), s.cpar())
    w = [x.copy() for x in pos] + [x.copy() for x in ids]
    del ta
    churn(c)
    for x, y in zip(list(pos) + list(ids), w):
        c.check(bool(np.array_equal(x, y)), "corresp-copy", "result of matching changed")
    c.count("temporaries used", 8)
    c.distinct("t", n2, rows)


# ------------------------------------------------------------ tracker
def tracking_data(c, core, s, root, n, nf, first):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    v = s.half * .03
    ps = s.points(c, n) * .8
    vel = np.array([[c.u(-v, v) for _ in range(3)] for _ in range(n)])
    for k in range(nf):
        p = ps + vel * k
        ids = np.full((n, 4), -1)
        for cam in range(s.nc):
            px = core.pixel(s.cp_arr(), core.project(s.cals[cam], s.mm_arr(), p, False), True)
            o = sorted(range(n), key=lambda i: px[i][1])
            for t, i in enumerate(o):
                ids[i, cam] = t
            open(root + "/cam%d.%04d_targets" % (cam + 1, first + k), "w").write(target_lines([[t, px[i][0], px[i][1], 20, 4, 4, 800, i] for t, i in enumerate(o)]))
        open(root + "/rt_is.%d" % (first + k), "w").write("%d\n" % n + "".join("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % ((j + 1,) + tuple(p[j]) + tuple(ids[j])) for j in range(n)))
    return v * 2.5


def a_tracker(c, core):
    """a tracker whose parameters are dropped, set and read again while it runs gives what an undisturbed one gives"""
    from optv.tracker import Tracker
    from optv.parameters import TrackingParams, SequenceParams, ControlParams, VolumeParams
    from optv.calibration import Calibration
    s = Scene(c, c.r.randint(2, 4), nlay=1)
    nf, first = c.r.choice([3, 5]), 10
    root = os.path.join(c.scratch, "tk")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    lim = tracking_data(c, core, s, root + "/A", 8, nf, first)
    shutil.copytree(root + "/A", root + "/B")
    last = first + nf - 1

    def mk(d):
        return [s.cpar(), s.vpar(), TrackingParams(accel_lim=lim * 2, angle_lim=100, velocity_lims=[[-lim, lim]] * 3, add_particle=0),
                SequenceParams(image_base=[root + "/%s/cam%d." % (d, k + 1) for k in range(s.nc)], frame_range=(first, last)),
                [mkcal(a) for a in s.cals], {"corres": (root + "/%s/rt_is" % d).encode(), "linkage": (root + "/%s/ptv_is" % d).encode(), "prio": (root + "/%s/added" % d).encode()}]
    Tracker(*mk("A")).full_forward()
    a = mk("B")
    tr = Tracker(*a)
    # files with the same parameters
    f = [os.path.join(c.scratch, x) for x in ("p.ptv", "p.vol", "p.trk", "p.seq", "p.ori", "p.add", "p.seq2")]
    g = lambda *v: "".join((x if isinstance(x, str) else "%d" % x if isinstance(x, (int, np.integer)) else "%.17g" % x) + "\n" for x in v)
    open(f[0], "w").write(g(s.nc, *(["x"] * (2 * s.nc)), 0, 0, 0, s.imx, s.imy, *s.pix, 0, s.n1, s.n2[0], s.n3, s.d[0]))
    vp = s.vp_arr()
    open(f[1], "w").write(g(vp[0], vp[2], vp[4], vp[1], vp[3], vp[5], vp[7], vp[8], vp[6], vp[9], vp[11], vp[10]))
    open(f[2], "w").write(g(-lim, lim, -lim, lim, -lim, lim, 100., lim * 2, 0))
    open(f[3], "w").write(g(*[root + "/B/cam%d." % (k + 1) for k in range(s.nc)], first, last))
    # more cameras than the tracker has
    open(f[6], "w").write(g(*[root + "/B/cam%d." % (k + 1) for k in range(s.nc + 2)], first, last))

    def disturb():
        q = c.r.randint(0, 11)
        k = q % 6
        if q == 11:
            gc.collect()
            churn(c)
        elif a[k] is None:
            return
        elif q < 5:
            if k == 0:
                a[0].read_control_par(f[0].encode())
            elif k == 1:
                a[1].read_volume_par(f[1].encode())
            elif k == 2:
                a[2].read_track_par(f[2].encode())
            elif k == 3:
                x = c.r.choice([0, 0, 1])
                a[3].read_sequence_par(f[6 if x else 3].encode(), s.nc + (2 if x else 0))
            else:
                i = c.r.randrange(s.nc)
                if c.r.random() < .5:
                    dm = core.rotation(s.cals[i])
                    PCal.write_ori(None, c, f[4], s.cals[i], dm)
                    open(f[5], "w").write(" ".join("%.17g" % x for x in s.cals[i][12:]) + "\n")
                    a[4][i].from_file(f[4].encode(), f[5].encode())
                else:
                    a[4][i].set_angles(s.cals[i][3:6])
                    a[4][i].set_pos(s.cals[i][:3])
        elif q == 9:
            # changes of the containers don't matter
            if c.r.random() < .5:
                a[4].clear()
            else:
                a[5] and a[5].clear()
        else:
            a[k] = [] if k == 4 else None
        c.count("disturbances of a tracker")
    a[5] = a[5] or {}
    how = c.r.randint(0, 2)
    for _ in range(c.r.randint(0, 4)):
        try:
            disturb()
        except (IndexError, AttributeError):
            pass
    if how == 0:
        tr.full_forward()
    else:
        tr.restart()
        while tr.step_forward():
            for _ in range(c.r.randint(0, 3)):
                try:
                    disturb()
                except (IndexError, AttributeError):
                    pass
        tr.finalize()
        if how == 2:  # all over again: the results of the second run are those of the first
            tr.restart()
            while tr.step_forward():
                churn(c)
            tr.finalize()
    x, y = dirfiles(root + "/A"), dirfiles(root + "/B")
    c.check(sorted(x) == sorted(y), "tracker-files", "files %s / %s", sorted(x), sorted(y))
    for k in x:
        if how < 2 or k.startswith("ptv_is"):
            c.check(x[k] == y.get(k), "tracker-output", "%s differs from that of an undisturbed run:\n%s\n--- expected\n%s", k, (y.get(k) or b"")[:300].decode(errors="replace"), x[k][:300].decode(errors="replace"))
    # trackers that never start, or start and are dropped
    t2 = Tracker(*mk("B"))
    if c.r.random() < .5:
        t2.restart()
    if c.r.random() < .5:
        t2.step_forward()
    del t2, tr
    churn(c)
    shutil.rmtree(root, ignore_errors=True)
    c.distinct("trk", s.nc, nf, how, sorted(x))


# ------------------------------------------------------------ wrong arguments
def a_errors(c, core):
    from optv import transforms as T, imgcoord as I, epipolar as E, image_processing as IP, segmentation as S, orientation as O
    from optv.correspondences import MatchedCoords, correspondences, single_cam_correspondence
    from optv.parameters import ControlParams, VolumeParams, TrackingParams, SequenceParams, TargetParams, MultimediaParams
    from optv.calibration import Calibration
    from optv.tracking_framebuf import TargetArray, Target, Frame, read_targets
    from optv.tracker import Tracker
    s = Scene(c, 3, nlay=1)
    cp, vp, cal, cals, mm = s.cpar(), s.vpar(), mkcal(s.cals[0]), [mkcal(a) for a in s.cals], s.cpar().get_multimedia_params()
    ref = s.points(c, 8)
    px = core.pixel(s.cp_arr(), core.project(s.cals[0], s.mm_arr(), ref, False), True)
    ta = lambda n=8: make_targets(c, [[k, px[k][0], px[k][1], 9, 3, 3, 90, -1] for k in range(n)])
    A = lambda *sh: np.zeros(sh)
    img = np.zeros((s.imy, s.imx), dtype=np.uint8)
    nofile = os.path.join(c.scratch, "nosuch", "file").encode()
    bad = os.path.join(c.scratch, "bad.par")
    open(bad, "w").write("not a number\n")
    bad = bad.encode()
    short = os.path.join(c.scratch, "short.par")
    open(short, "w").write("1\n")
    short = short.encode()
    cut = os.path.join(c.scratch, "cut.")
    open(cut + "0005_targets", "w").write("3\n   0 1.0 2.0 1 1 1 1 -1\n")
    open(cut + "0006_targets", "w").write("20001\n" + "   0 1.0 2.0 1 1 1 1 -1\n" * 20001)
    open(cut + "0007_targets", "w").write("-3\n")
    seq = SequenceParams(num_cams=3)
    tgp, trp = TargetParams(), TrackingParams()
    names = {"corres": (c.scratch + "/q").encode(), "linkage": (c.scratch + "/w").encode(), "prio": (c.scratch + "/e").encode()}
    mc = lambda t: MatchedCoords(t, cp, cal)
    t3 = [ta() for _ in range(3)]
    m3 = [mc(t) for t in t3]
    m5 = mc(ta(5))
    many = TargetArray(4)
    err = []

    def must(what, f, kinds=(Exception,)):
        try:
            f()
        except kinds:
            pass
        except Exception as e:
            c.fail("error-kind:" + what, "%s raises %r, expected %s", what, e, [k.__name__ for k in kinds])
        else:
            c.fail("no-error:" + what, "%s is accepted", what)
        c.res.evals += 1
        err.append(what)

    # shapes
    for n, f in (("pixel_to_metric", lambda a, **k: T.convert_arr_pixel_to_metric(a, cp, **k)), ("metric_to_pixel", lambda a, **k: T.convert_arr_metric_to_pixel(a, cp, **k)),
                 ("correct_brown", lambda a, **k: T.correct_arr_brown_affine(a, cal, **k)), ("distort_brown", lambda a, **k: T.distort_arr_brown_affine(a, cal, **k)),
                 ("distorted_to_flat", lambda a, **k: T.distorted_to_flat(a, cal, **k))):
        must(n + " of three columns", lambda: f(A(4, 3)))
        must(n + " of one column", lambda: f(A(4, 1)))
        must(n + " of no columns", lambda: f(A(4, 0)))
        must(n + " of one dimension", lambda: f(A(4)))
        must(n + " of integers", lambda: f(np.zeros((4, 2), dtype=int)))
        must(n + " into fewer rows", lambda: f(A(4, 2), out=A(3, 2)))
        must(n + " into more columns", lambda: f(A(4, 2), out=A(4, 3)))
        must(n + " of None", lambda: f(None))
    for n, f in (("flat_image_coordinates", I.flat_image_coordinates), ("image_coordinates", I.image_coordinates)):
        must(n + " of two columns", lambda: f(A(4, 2), cal, mm))
        must(n + " of four columns", lambda: f(A(4, 4), cal, mm))
        must(n + " into three columns", lambda: f(A(4, 3), cal, mm, A(4, 3)))
        must(n + " into fewer rows", lambda: f(A(4, 3), cal, mm, A(2, 2)))
        must(n + " without calibration", lambda: f(A(4, 3), None, mm))
        must(n + " without media", lambda: f(A(4, 3), cal, None))
        must(n + " with other media", lambda: f(A(4, 3), cal, cp))
    must("epipolar curve of two points", lambda: E.epipolar_curve(A(2, 2), cal, cal, 5, cp, vp))
    must("epipolar curve of an empty point", lambda: E.epipolar_curve(A(0), cal, cal, 5, cp, vp))
    must("epipolar curve of one coordinate", lambda: E.epipolar_curve(A(1), cal, cal, 5, cp, vp))
    must("epipolar curve of -1 points", lambda: E.epipolar_curve(A(2), cal, cal, -1, cp, vp))
    must("epipolar curve without camera", lambda: E.epipolar_curve(A(2), None, cal, 3, cp, vp))
    must("epipolar curve without volume", lambda: E.epipolar_curve(A(2), cal, cal, 3, cp, None))
    # images
    must("preprocessing a smaller image", lambda: IP.preprocess_image(img[:-1], 0, cp))
    must("preprocessing a transposed image", lambda: IP.preprocess_image(np.zeros((s.imx, s.imy + 1), dtype=np.uint8), 0, cp))
    must("preprocessing an empty image", lambda: IP.preprocess_image(np.zeros((0, 0), dtype=np.uint8), 0, cp))
    must("preprocessing floats", lambda: IP.preprocess_image(img.astype(float), 0, cp))
    must("preprocessing into another size", lambda: IP.preprocess_image(img, 0, cp, output_img=img[1:].copy()))
    must("preprocessing without filter", lambda: IP.preprocess_image(img, 2, cp))
    must("preprocessing with a missing filter", lambda: IP.preprocess_image(img, 2, cp, filter_file=nofile.decode()))
    must("preprocessing with a broken filter", lambda: IP.preprocess_image(img, 2, cp, filter_file=bad.decode()))
    must("preprocessing with negative width", lambda: IP.preprocess_image(img, 0, cp, lowpass_dim=-1))
    must("preprocessing without parameters", lambda: IP.preprocess_image(img, 0, None))
    must("recognition in a smaller image", lambda: S.target_recognition(img[:, :-1], tgp, 0, cp))
    must("recognition in a larger image", lambda: S.target_recognition(np.zeros((s.imy + 1, s.imx), dtype=np.uint8), tgp, 0, cp))
    for w, h in ((0, 0), (5, 0), (0, 5)):  # with parameters that say so: an exception, or nothing
        none, ecp = np.zeros((h, w), dtype=np.uint8), ControlParams(3, image_size=(w, h), pixel_size=(.01, .01))
        for f in (lambda: IP.preprocess_image(none, 0, ecp), lambda: IP.preprocess_image(none, 1, ecp, 3), lambda: S.target_recognition(none, tgp, 0, ecp)):
            try:
                got = f()
            except Exception:
                continue
            # without targets, recognition gives the documented one at (1,1)
            n = np.size(got) if isinstance(got, np.ndarray) else sum(t.pos() != (1., 1.) for t in got)
            c.check(n == 0, "empty-image", "an image of %dx%d gives %r", w, h, got)
    must("recognition in an empty image", lambda: S.target_recognition(np.zeros((0, 5), dtype=np.uint8), tgp, 0, cp))
    must("recognition for camera 4", lambda: S.target_recognition(img, tgp, 4, cp))
    must("recognition for camera -1", lambda: S.target_recognition(img, tgp, -1, cp))
    must("recognition without parameters", lambda: S.target_recognition(img, None, 0, cp))
    must("recognition in words", lambda: S.target_recognition(img.astype(np.uint16), tgp, 0, cp))
    must("recognition in a line of three", lambda: S.target_recognition(img, tgp, 0, cp, subrange_x=(1, 2, 3)))
    # targets
    a = ta()
    for k in (8, 100, -1, -9, 2 ** 31 - 1):
        must("target %d of 8" % k, lambda: a[k], (IndexError,))
    must("target of a huge number", lambda: a[2 ** 40])
    must("target of a word", lambda: a["x"])
    must("target of empty array", lambda: TargetArray()[0], (IndexError,))
    must("target with half of its values", lambda: Target(pnr=3))
    must("a huge target array", lambda: TargetArray(2 ** 31 - 1), (MemoryError,))
    must("targets initialised again", lambda: a.__init__(5))
    must("targets written nowhere", lambda: a.write(nofile, 1), (IOError,))
    must("targets from a missing file", lambda: read_targets(nofile.decode(), 1), (IOError,))
    must("targets from a cut file", lambda: read_targets(cut, 5), (IOError,))
    must("too many targets", lambda: read_targets(cut, 6), (IOError,))
    must("a negative number of targets", lambda: read_targets(cut, 7), (IOError,))
    must("targets from None", lambda: read_targets(None, 7))
    # frames
    must("frame of missing files", lambda: Frame(2, nofile, nofile, None, [nofile, nofile], 1), (IOError,))
    must("frame with one name too few", lambda: Frame(3, nofile, nofile, None, [nofile, nofile], 1), (ValueError,))
    must("frame with names of the wrong kind", lambda: Frame(2, nofile, nofile, None, [1, 2], 1))
    must("positions before reading", lambda: Frame(2).positions(), (ValueError,))
    must("targets before reading", lambda: Frame(2).target_positions_for_camera(0))
    must("a frame with -1 cameras", lambda: Frame(-1))
    ff = FrameFiles(c, 2, os.path.join(c.scratch, "fe"))
    fr = Frame(2)
    fr.read(*ff.names(0))
    must("targets of camera 2 of 2", lambda: fr.target_positions_for_camera(2), (IndexError,))
    must("targets of camera -1", lambda: fr.target_positions_for_camera(-1), (IndexError,))
    must("a frame initialised again", lambda: fr.__init__(4))
    c.same(fr.positions(), ff.wants[0][0], "frame", "frame after errors")
    # parameters
    must("sequence of nothing", lambda: SequenceParams())
    must("sequence of -1 cameras", lambda: SequenceParams(num_cams=-1))
    for k in (3, -1, 100, 2 ** 31):
        must("sequence name %d of 3" % k, lambda: seq.get_img_base_name(k), (IndexError,))
        must("setting sequence name %d of 3" % k, lambda: seq.set_img_base_name(k, "x"), (IndexError,))
        must("control name %d of 3" % k, lambda: cp.get_img_base_name(k), (IndexError,))
        must("setting control name %d of 3" % k, lambda: cp.set_img_base_name(k, "x"), (IndexError,))
        must("calibration name %d of 3" % k, lambda: cp.get_cal_img_base_name(k), (IndexError,))
        must("setting calibration name %d of 3" % k, lambda: cp.set_cal_img_base_name(k, "x"), (IndexError,))
    for n in (240, 241, 5000):
        must("sequence name of %d characters" % n, lambda: seq.set_img_base_name(1, "x" * n), (ValueError,))
        must("control name of %d characters" % n, lambda: cp.set_img_base_name(1, "x" * n), (ValueError,))
        must("calibration name of %d characters" % n, lambda: cp.set_cal_img_base_name(1, "x" * n), (ValueError,))
        must("new sequence, name of %d characters" % n, lambda: SequenceParams(image_base=["y", "x" * n]), (ValueError,))
    must("sequence name in bytes beyond", lambda: seq.set_img_base_name(1, "\u00e9" * 120), (ValueError,))
    must("name None", lambda: seq.set_img_base_name(1, None))
    must("sequence initialised again", lambda: seq.__init__(num_cams=5))
    must("control initialised again", lambda: cp.__init__(5))
    must("control of -1 cameras", lambda: ControlParams(-1))
    must("image size of one number", lambda: cp.set_image_size((1,)))
    must("image size of three numbers", lambda: cp.set_image_size((1, 2, 3)))
    must("pixel size of one number", lambda: cp.set_pixel_size((1,)))
    must("pixel size of words", lambda: cp.set_pixel_size(("a", "b")))
    must("four layers", lambda: mm.set_layers([1.] * 4, [1.] * 4), (ValueError,))
    must("a thousand layers", lambda: mm.set_layers([1.] * 1000, [1.] * 1000), (ValueError,))
    must("unequal layers", lambda: mm.set_layers([1.] * 2, [1.] * 3), (ValueError,))
    must("five thresholds", lambda: tgp.set_grey_thresholds([1] * 5), (ValueError,))
    must("getting five thresholds", lambda: tgp.get_grey_thresholds(num_cams=5), (ValueError,))
    must("getting -1 thresholds", lambda: tgp.get_grey_thresholds(num_cams=-1), (ValueError,))
    must("bounds of one number", lambda: tgp.set_xsize_bounds((1,)))
    for n in ("X_lay", "Zmin_lay", "Zmax_lay"):
        for k in (0, 1, 3, 500):
            must("%s of %d" % (n, k), lambda: getattr(vp, "set_" + n)([1.] * k), (ValueError,))
    for n, o, f in (("control", cp, lambda x: cp.read_control_par(x)), ("sequence", seq, lambda x: seq.read_sequence_par(x, 3)), ("volume", vp, lambda x: vp.read_volume_par(x)),
                    ("tracking", trp, lambda x: trp.read_track_par(x)), ("target", tgp, lambda x: tgp.read(x)), ("calibration", cal, lambda x: cal.from_file(x, x))):
        for w, x in (("missing", nofile), ("broken", bad), ("short", short)):
            if (n, w) == ("sequence", "broken"):
                pass
            must("%s parameters from a %s file" % (n, w), lambda: f(x), (IOError,))
    must("calibration written nowhere", lambda: cal.write(nofile, nofile), (IOError,))
    must("sequence of -1 cameras read", lambda: seq.read_sequence_par(bad, -1))
    for n, k in PCal.keys.items():
        for q in (0, k - 1, k + 1, 50):
            must("%s of %d" % (n, q), lambda: getattr(cal, "set_" + n)(np.zeros(q)))
        must("%s of None" % n, lambda: getattr(cal, "set_" + n)(None))
    must("order of parameters", lambda: trp < trp)
    must("order of control parameters", lambda: cp <= cp)
    # calibration functions
    must("reference of two columns", lambda: O.match_detection_to_ref(cal, A(8, 2), ta(), cp))
    must("reference of four columns", lambda: O.match_detection_to_ref(cal, A(8, 4), ta(), cp))
    must("reference for no targets", lambda: O.match_detection_to_ref(cal, A(8, 3), None, cp))
    must("orientation, two columns", lambda: O.external_calibration(cal, A(8, 2), A(8, 2), cp))
    must("orientation, fewer points", lambda: O.external_calibration(cal, ref, A(7, 2), cp))
    must("orientation, no points", lambda: O.external_calibration(cal, ref, A(0, 2), cp))
    must("orientation, points of three columns", lambda: O.external_calibration(cal, ref, A(8, 3), cp))
    must("calibration, fewer targets", lambda: O.full_calibration(cal, ref, ta(7), cp))
    must("calibration, two columns", lambda: O.full_calibration(cal, A(8, 2), ta(), cp))
    must("calibration without targets", lambda: O.full_calibration(cal, ref, None, cp))
    must("calibration of unmatched targets", lambda: O.full_calibration(cal, ref, TargetArray(8), cp, ['cc']), (ValueError,))
    for n, f in (("positions", lambda t, k: O.point_positions(t, cp, k, vp)), ("multi camera positions", lambda t, k: O.multi_cam_point_positions(t, cp, k)), ("dumbbell", lambda t, k: O.dumbbell_target_func(t, cp, k, 5, 1.))):
        must(n + ", fewer cameras", lambda: f(A(4, 2, 2), cals))
        must(n + ", more cameras", lambda: f(A(4, 5, 2), cals))
        must(n + ", three columns", lambda: f(A(4, 3, 3), cals))
        must(n + ", one column", lambda: f(A(4, 3, 1), cals))
        must(n + ", two dimensions", lambda: f(A(4, 2), cals))
        must(n + ", no cameras", lambda: f(A(4, 0, 2), []) if n == "positions" else f(A(4, 1, 2), []))
        must(n + ", calibration of another kind", lambda: f(A(4, 3, 2), [cal, cp, cal]))
        must(n + ", calibration None", lambda: f(A(4, 3, 2), [cal, None, cal]))
        must(n + ", calibrations None", lambda: f(A(4, 3, 2), None))
    must("single camera positions of two", lambda: O.single_cam_point_positions(A(4, 2, 2), cp, [cal], vp))
    must("single camera positions without volume", lambda: O.single_cam_point_positions(A(4, 1, 2), cp, [cal], None))
    # matching
    must("coordinates of nothing", lambda: MatchedCoords(None, cp, cal))
    must("coordinates without calibration", lambda: MatchedCoords(ta(), cp, None))
    must("matching fewer targets", lambda: correspondences(t3[:2], m3, cals, vp, cp))
    must("matching fewer coordinates", lambda: correspondences(t3, m3[:2], cals, vp, cp))
    must("matching fewer calibrations", lambda: correspondences(t3, m3, cals[:2], vp, cp))
    must("matching two of three cameras", lambda: correspondences(t3[:2], m3[:2], cals[:2], vp, cp))
    must("matching of nothing", lambda: correspondences([], [], [], vp, cp))
    must("matching five cameras", lambda: correspondences(t3 + t3[:2], m3 + m3[:2], cals + cals[:2], vp, ControlParams(5)))
    must("matching coordinates of other targets", lambda: correspondences([ta(8), ta(5), ta(8)], m3, cals, vp, cp))
    must("matching coordinates of some of the targets", lambda: correspondences(t3, [m3[0], m5, m3[2]], cals, vp, cp))
    must("single camera matching of some of the targets", lambda: single_cam_correspondence(t3[:1], [m5], cals[:1]))
    must("matching of None", lambda: correspondences([None] * 3, m3, cals, vp, cp))
    must("matching without volume", lambda: correspondences(t3, m3, cals, None, cp))
    must("matching numbers that don't exist", lambda: correspondences(t3, [mk_far(c, ta, cp, cal)] + m3[1:], cals, vp, cp))
    must("single camera matching of three", lambda: single_cam_correspondence(t3, m3, cals))
    must("coordinates by numbers in floats", lambda: m3[0].get_by_pnrs(A(3)))
    # tracking
    big = SequenceParams(image_base=["a", "b", "c"], frame_range=(1, 2))
    must("tracking fewer calibrations", lambda: Tracker(cp, vp, trp, big, cals[:2], names))
    must("tracking with names missing", lambda: Tracker(cp, vp, trp, big, cals, {"corres": b"x"}))
    must("tracking with words for names", lambda: Tracker(cp, vp, trp, big, cals, {"corres": "x", "linkage": "y", "prio": "z"}))
    must("tracking with None for names", lambda: Tracker(cp, vp, trp, big, cals, dict(names, corres=None)))
    must("tracking fewer image names", lambda: Tracker(cp, vp, trp, SequenceParams(num_cams=2), cals, names))
    must("tracking five cameras", lambda: Tracker(ControlParams(5), vp, trp, SequenceParams(num_cams=5), cals + cals, names))
    must("tracking no cameras", lambda: Tracker(ControlParams(0), vp, trp, SequenceParams(num_cams=0), [], names))
    must("tracking with other calibrations", lambda: Tracker(cp, vp, trp, big, [cal, None, cal], names))
    for k in range(4):
        p = [cp, vp, trp, big]
        p[k] = None
        must("tracking with parameters %d None" % k, lambda: Tracker(*p, cals, names))
    tr = Tracker(cp, vp, trp, big, cals, names)
    must("tracker initialised again", lambda: tr.__init__(cp, vp, trp, big, cals, names))
    if c.r.random() < .5:
        f = os.path.join(c.scratch, "other.ptv")
        open(f, "w").write("1\na\nb\n0\n0\n0\n100\n100\n.1\n.1\n0\n1\n1\n1\n1\n")
        cp.read_control_par(f.encode())
        must("tracking after the number of cameras changed", lambda: tr.restart())
        must("tracking on after the number of cameras changed", lambda: tr.full_forward())
    del tr
    for n in err:
        c.res.hashes.add(hash(n) & (2 ** 64 - 1))
    c.count("wrong uses tried", len(err))


def mk_far(c, ta, cp, cal):
    from optv.correspondences import MatchedCoords
    t = ta()
    t[3].set_pnr(c.r.choice([8, 500, 10 ** 6]))
    return MatchedCoords(t, cp, cal, reset_numbers=False)


# ------------------------------------------------------------ any arguments
def a_fuzz(c, core):
    """operations with one argument replaced by anything: an exception or a result, never a crash"""
    from optv import transforms as T, imgcoord as I, epipolar as E, image_processing as IP, segmentation as S, orientation as O
    from optv.correspondences import MatchedCoords, correspondences, single_cam_correspondence
    from optv.parameters import ControlParams, VolumeParams, TrackingParams, SequenceParams, TargetParams, MultimediaParams
    from optv.calibration import Calibration
    from optv.tracking_framebuf import TargetArray, Target, Frame, read_targets
    from optv.tracker import Tracker
    s = Scene(c, 2, nlay=1)
    s.imx, s.imy = 64, 48
    cp, vp, cals = s.cpar(), s.vpar(), [mkcal(a) for a in s.cals]
    cal, mm, tgp, trp = cals[0], cp.get_multimedia_params(), TargetParams(gvthresh=[20] * 4), TrackingParams()
    ref = s.points(c, 8)
    px = core.pixel(s.cp_arr(), core.project(s.cals[0], s.mm_arr(), ref, False), True)
    ta = lambda: make_targets(c, [[k, px[k][0], px[k][1], 9, 3, 3, 90, -1] for k in range(8)])
    img = blobs(c, 64, 48, 3)
    t2 = [ta(), ta()]
    m2 = [MatchedCoords(t, cp, cal) for t in t2]
    f = os.path.join(c.scratch, "nosuchfile").encode()
    seq = SequenceParams(image_base=["a", "b"])
    names = {"corres": f, "linkage": f, "prio": f}
    t3d = np.zeros((8, 2, 2))
    ops = [
        (T.convert_arr_pixel_to_metric, [px.copy(), cp, np.zeros((8, 2))]), (T.convert_arr_metric_to_pixel, [px.copy(), cp]), (T.correct_arr_brown_affine, [px * .01, cal]),
        (T.distort_arr_brown_affine, [px * .01, cal, np.zeros((8, 2))]), (T.distorted_to_flat, [px * .01, cal, np.zeros((8, 2)), 1e-5]), (I.image_coordinates, [ref, cal, mm, np.zeros((8, 2))]),
        (I.flat_image_coordinates, [ref, cal, mm]), (E.epipolar_curve, [px[0].copy(), cal, cals[1], 5, cp, vp]), (IP.preprocess_image, [img, 0, cp, 1, None, img.copy()]), (IP.preprocess_image, [img, 2, cp, 1, "x"]),
        (S.target_recognition, [img, tgp, 1, cp, (0, 60), (0, 40)]), (O.match_detection_to_ref, [cal, ref, ta(), cp, 5]), (O.point_positions, [t3d, cp, cals, vp]),
        (O.external_calibration, [mkcal(s.cals[0]), ref, px, cp]), (O.full_calibration, [mkcal(s.cals[0]), ref, ta(), cp, ["cc"]]), (O.dumbbell_target_func, [t3d, cp, cals, 5, 1.]),
        (MatchedCoords, [ta(), cp, cal, 1e-4, True]), (correspondences, [t2, m2, cals, vp, cp]), (single_cam_correspondence, [t2[:1], m2[:1], cals[:1]]), (m2[0].get_by_pnrs, [np.arange(4)]),
        (Tracker, [cp, vp, trp, seq, cals, names, .1]), (read_targets, ["x", 5]), (TargetArray, [4]), (ta().__getitem__, [3]), (ta().write, [f + b"/x", 3]), (Frame, [2, f, f, f, [f, f], 4]), (Frame(2).read, [f, f, [f, f], 4, None]),
        (cal.set_pos, [np.zeros(3)]), (cal.set_angles, [np.zeros(3)]), (cal.set_primary_point, [np.zeros(3)]), (cal.set_glass_vec, [np.ones(3)]), (cal.set_radial_distortion, [np.zeros(3)]), (cal.set_affine_trans, [np.ones(2)]),
        (cal.from_file, [f, f, f]), (cal.write, [f + b"/x", f + b"/y"]), (Calibration, [np.zeros(3)] * 4), (mm.set_layers, [[1.], [1.]]), (mm.set_n1, [1.]), (tgp.set_grey_thresholds, [[1, 2]]), (tgp.get_grey_thresholds, [3, True]), (tgp.read, [f]),
        (tgp.set_xsize_bounds, [(1, 2)]), (TargetParams, [1, [1, 2], (1, 2), (1, 2), (1, 2), 5, 2]), (ControlParams, [2, ["hp"], (10, 20), (.1, .1), 1., [1.], [1.], 1.]), (cp.set_img_base_name, [1, "x"]), (cp.get_img_base_name, [1]), (cp.get_cal_img_base_name, [1]),
        (cp.set_image_size, [(64, 48)]), (cp.set_pixel_size, [(.01, .01)]), (cp.read_control_par, [f]), (seq.read_sequence_par, [f, 2]), (seq.set_img_base_name, [1, "x"]), (seq.set_first, [1]), (vp.set_X_lay, [[1., 2.]]), (vp.read_volume_par, [f]), (trp.set_dacc, [1.]), (trp.read_track_par, [f]),
        (ta()[0].set_pos, [(1, 2)]), (ta()[0].set_pixel_counts, [1, 2, 3]), (cp.__eq__, [cp]), (vp.__ne__, [vp]), (seq.__eq__, [seq]), (mm.__eq__, [mm]), (cal.__eq__, [cal]),
    ]

    class Weird:
        def __len__(self): return 2
        def __getitem__(self, k): raise KeyError(k)
        def __iter__(self): return iter([1])

    class Lying(list):
        def __len__(self): return 50
    junk = [None, -1, 0, 1, 3, 1000, -2 ** 31, 2 ** 31, 2 ** 40, 10 ** 30, 1.5, float("nan"), float("inf"), -1e300, "", "x", "x" * 300, "\u00e9\u4e2d", b"", b"x" * 300, b"a\0b", [], [None], [1.], [1, 2, 3], [1.] * 100, (), (1, 2), {}, {"corres": 1},
            object(), Weird(), Lying([1]), True, np.float64(3), np.zeros(()), np.zeros(0), np.zeros(3), np.zeros((0, 2)), np.zeros((2, 0)), np.zeros((0, 3)), np.zeros((0, 0, 0)), np.zeros((3, 2)), np.zeros((8, 2)).T, np.zeros((5, 3)), np.zeros((4, 2, 2)),
            np.zeros((8, 2), dtype=np.float32), np.zeros((8, 2), dtype=int), np.zeros((8, 2), dtype=">f8"), np.zeros((48, 64), dtype=np.uint8)[::-1], np.full((8, 2), np.nan), np.full((8, 3), np.inf), np.zeros((8, 2, 2)) * np.nan,
            np.array(["a", "b"]), np.array([None, None]), np.zeros((8, 2), order="F"), cp, vp, cal, mm, tgp, trp, seq, ta(), TargetArray(), TargetArray(3), Frame(2), Target(), m2[0], cals, [cal], [cp, vp], t2, m2, [ta(), None], MultimediaParams(), ControlParams(0), ControlParams(1),
            SequenceParams(num_cams=0), Calibration(), VolumeParams(), TrackingParams(), (1, 2, 3, 4), (5, 0), (-5, 500), (2 ** 40, 1), range(2), slice(1), int, len, iter([1, 2])]
    f = np.zeros((8, 2))
    f.flags.writeable = False
    junk.append(f)
    raised = 0
    for _ in range(150):
        fn, args = c.r.choice(ops)
        args = list(args)
        for _ in range(c.r.choice([1, 1, 1, 2])):
            args[c.r.randrange(len(args))] = c.r.choice(junk)
        if c.r.random() < .05:
            args = args[:-1] if c.r.random() < .5 else args + [c.r.choice(junk)]
        if fn is SequenceParams and isinstance(args[0], int) and args[0] > 1000:
            continue
        try:
            r = fn(*args)
            # use what came out
            if isinstance(r, TargetArray) and len(r) < 100:
                targlist(r)
            del r
        except Exception:
            raised += 1
        c.res.evals += 1
    # everything still works
    s2 = Scene(c, 1)
    c.same(I.image_coordinates(ref, mkcal(s2.cals[0]), s2.cpar().get_multimedia_params()), core.project(s2.cals[0], s2.mm_arr(), ref, False), "after-errors", "projection after wrong uses")
    c.count("calls with any arguments", 150)
    c.count("calls that raised", raised)
    c.distinct("fz", c.idx)


# ------------------------------------------------------------ memory growth
def allocated():
    return ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes()


def a_leaks(c, core):
    from optv import transforms as T, imgcoord as I, epipolar as E, image_processing as IP, segmentation as S, orientation as O
    from optv.correspondences import MatchedCoords, correspondences
    from optv.parameters import ControlParams, VolumeParams, TrackingParams, SequenceParams, TargetParams, MultimediaParams
    from optv.calibration import Calibration
    from optv.tracking_framebuf import TargetArray, Target, Frame, read_targets
    from optv.tracker import Tracker
    ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes.restype = ctypes.c_size_t
    f = ctypes.CDLL(None)
    f.__sanitizer_get_current_allocated_bytes.restype = ctypes.c_size_t
    mem = f.__sanitizer_get_current_allocated_bytes
    s = Scene(c, c.r.randint(2, 4), nlay=1)
    cp, vp, cals = s.cpar(), s.vpar(), [mkcal(a) for a in s.cals]
    cal, mm = cals[0], cp.get_multimedia_params()
    ref = s.points(c, 20)
    px = core.pixel(s.cp_arr(), core.project(s.cals[0], s.mm_arr(), ref, False), True)
    ta = make_targets(c, [[k, px[k][0], px[k][1], 9, 3, 3, 90, -1] for k in range(20)])
    d = os.path.join(c.scratch, "lk")
    ff = FrameFiles(c, 2, d)
    nofile = (d + "/none/x").encode()
    p = {k: os.path.join(d, k) for k in ("ptv", "vol", "trk", "seq", "tgt", "ori", "add", "bad", "flt")}
    g = lambda *v: "".join((x if isinstance(x, str) else "%.17g" % x) + "\n" for x in v)
    w = lambda k, *v: open(p[k], "w").write(g(*v))
    w("ptv", 2, "a", "b", "c", "d", 0, 0, 0, 10, 10, .1, .1, 0, 1., 1., 1., 1.)
    w("vol", *([1.] * 12))
    w("trk", *([1.] * 8), 1)
    w("seq", "a", "b", 1, 2)
    w("tgt", *range(1, 14))
    w("bad", "3", "zz")
    w("flt", "1 1 1", "1 1 1", "1 1 1")
    PCal.write_ori(None, c, p["ori"], s.cals[0], core.rotation(s.cals[0]))
    w("add", *s.cals[0][12:])
    b = {k: v.encode() for k, v in p.items()}
    ta.write((d + "/t.").encode(), 5)
    open(d + "/u.0005_targets", "w").write("9\n 0 1 1 1\n")
    img = blobs(c, 64, 48, 8)
    icp = ControlParams(4, image_size=(64, 48), pixel_size=(.01, .01))
    tp = TargetParams(gvthresh=[30] * 4, pixel_count_bounds=(1, 900), xsize_bounds=(1, 90), ysize_bounds=(1, 90), discont=200)
    seqs, ctl, mc, fr = SequenceParams(num_cams=2), ControlParams(2), MatchedCoords(ta, cp, cal), Frame(2)
    fr.read(*ff.names(0))
    scr = os.path.join(c.scratch, "lt")
    lim = tracking_data(c, core, s, scr, 4, 3, 1)
    pts, tgs = detections(c, core, s, 6)
    trp = TrackingParams(accel_lim=lim * 2, angle_lim=100, velocity_lims=[[-lim, lim]] * 3, add_particle=1)
    sq = SequenceParams(image_base=[scr + "/cam%d." % (k + 1) for k in range(s.nc)], frame_range=(1, 3))
    nm = {"corres": (scr + "/rt_is").encode(), "linkage": (scr + "/ptv_is").encode(), "prio": (scr + "/added").encode()}
    t3 = np.zeros((6, s.nc, 2))
    for k in range(s.nc):
        t3[:, k] = core.project(s.cals[k], s.mm_arr(), ref[:6], True)

    def fails(f, *a, **k):
        try:
            f(*a, **k)
        except Exception:
            pass

    def match():
        tas = [make_targets(c, t) for t in tgs]
        return correspondences(tas, [MatchedCoords(t, cp, k) for t, k in zip(tas, cals)], cals, vp, cp)

    def single():
        return correspondences([ta], [MatchedCoords(ta, cp, cal)], [cal], vp, cp)

    def track():
        t = Tracker(cp, vp, trp, sq, cals, nm)
        t.full_forward()
        return t

    def steps():
        t = Tracker(cp, vp, trp, sq, cals, nm)
        t.restart()
        t.step_forward()
        t.restart()

    def back():
        t = track()
        t.full_backward()

    def reseq():
        seqs.read_sequence_par(b["seq"], 2)

    ops = {
        "Target": lambda: Target(pnr=1, tnr=1, x=1, y=1, n=1, nx=1, ny=1, sumg=1), "TargetArray": lambda: TargetArray(30), "items of a TargetArray": lambda: [t for t in ta], "sort_y": lambda: ta.sort_y(),
        "read_targets": lambda: read_targets(d + "/t.", 5), "read_targets, missing": lambda: fails(read_targets, d + "/none", 5), "read_targets, broken": lambda: fails(read_targets, d + "/u.", 5),
        "write targets": lambda: ta.write((d + "/v.").encode(), 5), "write targets, failing": lambda: fails(ta.write, nofile, 5),
        "Frame": lambda: Frame(2), "Frame read": lambda: Frame(2, *(lambda n: (n[0], n[1], None, n[2], n[3]))(ff.names(0))), "Frame read again": lambda: fr.read(*ff.names(1)), "Frame, missing": lambda: fails(Frame, 2, nofile, nofile, None, [nofile] * 2, 1),
        "Frame read again, missing": lambda: fr.read(*ff.names(50)), "Frame positions": lambda: (Frame(2, *(lambda n: (n[0], n[1], None, n[2], n[3]))(ff.names(0)))).positions(),
        "Frame targets": lambda: fr.target_positions_for_camera(1), "Frame, names": lambda: fails(fr.read, nofile, nofile, [1, 2], 1, None),
        "Calibration": lambda: Calibration(), "from_file": lambda: cal.from_file(b["ori"], b["add"]), "from_file, new": lambda: Calibration().from_file(b["ori"], b["add"], b["bad"]), "from_file, missing": lambda: fails(cal.from_file, nofile, nofile),
        "from_file, broken": lambda: fails(cal.from_file, b["bad"], b["bad"]), "from_file, broken distortion": lambda: fails(cal.from_file, b["ori"], b["bad"]), "write calibration": lambda: cal.write((d + "/x.ori").encode(), (d + "/x.add").encode()), "write calibration, failing": lambda: fails(cal.write, nofile, nofile),
        "calibration getters": lambda: (calarr(cal), cal.get_rotation_matrix()),
        "MultimediaParams": lambda: MultimediaParams(n1=1, n2=[1., 2.], d=[1., 2.], n3=1), "views": lambda: (mm.get_n2(copy=False), mm.get_d(copy=False), mm.get_n2(), vp.get_X_lay(copy=False), tp.get_grey_thresholds(copy=False), tp.get_grey_thresholds()), "str": lambda: str(mm),
        "ControlParams": lambda: ControlParams(4, ["hp"], (1, 2), (1, 2), 1, [1], [1], 1), "ControlParams and views": lambda: ControlParams(4).get_multimedia_params().get_n2(copy=False), "read control": lambda: ctl.read_control_par(b["ptv"]),
        "read control, new": lambda: ControlParams(5).read_control_par(b["ptv"]), "read control, missing": lambda: fails(ctl.read_control_par, nofile), "read control, broken": lambda: fails(ctl.read_control_par, b["bad"]),
        "SequenceParams": lambda: SequenceParams(image_base=["a", "b"]), "read sequence": reseq, "read sequence, new": lambda: SequenceParams(num_cams=3).read_sequence_par(b["seq"], 2), "read sequence, missing": lambda: fails(seqs.read_sequence_par, nofile, 2), "read sequence, broken": lambda: fails(seqs.read_sequence_par, b["bad"], 4),
        "SequenceParams, wrong": lambda: fails(SequenceParams, image_base=["x" * 500]), "ControlParams, wrong": lambda: fails(ControlParams, 3, [], (1, 2, 3)),
        "TrackingParams": lambda: TrackingParams(), "read tracking": lambda: TrackingParams().read_track_par(b["trk"]), "read tracking, broken": lambda: fails(trp.read_track_par, b["bad"]), "read tracking, missing": lambda: fails(trp.read_track_par, nofile),
        "VolumeParams": lambda: VolumeParams(x_span=(1, 2)), "read volume": lambda: VolumeParams().read_volume_par(b["vol"]), "read volume, broken": lambda: fails(vp.read_volume_par, b["bad"]), "read volume, missing": lambda: fails(vp.read_volume_par, nofile),
        "TargetParams": lambda: TargetParams(), "read target parameters": lambda: TargetParams().read(b["tgt"]), "read target parameters, broken": lambda: fails(tp.read, b["bad"]), "read target parameters, missing": lambda: fails(tp.read, nofile), "TargetParams, wrong": lambda: fails(TargetParams, gvthresh=[1] * 9),
        "names": lambda: (seqs.set_img_base_name(0, "x" * 100), seqs.get_img_base_name(0), ctl.set_cal_img_base_name(0, "abc"), fails(seqs.set_img_base_name, 0, "x" * 300)),
        "comparisons": lambda: (cp == ctl, vp == vp, trp != trp, seqs == sq, cp == 5),
        "conversions": lambda: (T.convert_arr_pixel_to_metric(px, cp), T.convert_arr_metric_to_pixel(px, cp), T.correct_arr_brown_affine(px * .01, cal), T.distort_arr_brown_affine(px * .01, cal), T.distorted_to_flat(px * .01, cal), fails(T.distorted_to_flat, px[:, :1], cal)),
        "projection": lambda: (I.image_coordinates(ref, cal, mm), I.flat_image_coordinates(ref, cal, mm)), "epipolar curve": lambda: E.epipolar_curve(px[0].copy(), cal, cals[1], 8, cp, vp),
        "preprocessing": lambda: IP.preprocess_image(img, 0, icp), "preprocessing, filter": lambda: IP.preprocess_image(img, 2, icp, filter_file=p["flt"]), "preprocessing, blur": lambda: IP.preprocess_image(img, 1, icp), "preprocessing, failing": lambda: fails(IP.preprocess_image, img, 2, icp, filter_file=d + "/none"), "preprocessing, broken": lambda: fails(IP.preprocess_image, img, 2, icp, filter_file=p["bad"]), "preprocessing, wrong size": lambda: fails(IP.preprocess_image, img[1:], 0, icp),
        "recognition": lambda: S.target_recognition(img, tp, 0, icp), "recognition, strided": lambda: S.target_recognition(np.asfortranarray(img), tp, 0, icp), "recognition, wrong": lambda: fails(S.target_recognition, img, tp, 9, icp),
        "MatchedCoords": lambda: MatchedCoords(ta, cp, cal), "MatchedCoords again": lambda: mc.__init__(ta, cp, cal), "MatchedCoords arrays": lambda: (mc.as_arrays(), mc.get_by_pnrs(np.arange(5))), "matching": match, "matching, one camera": single, "matching, wrong": lambda: fails(correspondences, [ta], [mc], cals, vp, cp),
        "match_detection_to_ref": lambda: O.match_detection_to_ref(cal, ref, ta, cp, 5), "external calibration": lambda: O.external_calibration(mkcal(s.cals[0]), ref, px, cp), "external calibration, failing": lambda: O.external_calibration(mkcal(s.cals[0]), ref[:1], px[:1], cp),
        "full calibration": lambda: fails(O.full_calibration, mkcal(s.cals[0]), ref, ta, cp, ["cc", "xh"]), "full calibration, failing": lambda: fails(O.full_calibration, mkcal(s.cals[0]), ref, TargetArray(20), cp, []),
        "positions": lambda: O.point_positions(t3, cp, cals, vp), "positions, one camera": lambda: O.point_positions(t3[:, :1], cp, cals[:1], vp), "positions, strided": lambda: O.point_positions(np.asfortranarray(t3), cp, cals, vp), "positions, wrong": lambda: fails(O.point_positions, t3, cp, cals[:1] + [None] * (s.nc - 1), vp),
        "dumbbell": lambda: O.dumbbell_target_func(t3, cp, cals, 10, 1.),
        "Tracker": lambda: Tracker(cp, vp, trp, sq, cals, nm), "Tracker, steps": steps, "Tracker, run": track, "Tracker, back": back, "Tracker, wrong": lambda: fails(Tracker, cp, vp, trp, sq, cals[:1], nm), "Tracker, wrong names": lambda: fails(Tracker, cp, vp, trp, sq, cals, {}),
    }
    names = sorted(ops)
    c.r.shuffle(names)
    if not c.thorough:
        names = names[:len(names) // 2]
    for n in names:
        op = ops[n]
        heavy = n.startswith("Tracker") or n.startswith("Frame") or n in ("matching",)
        reps = 3 if heavy else 10
        for _ in range(4):
            op()
        gc.collect()
        last, grow = mem(), []
        for _ in range(4):
            for _ in range(reps):
                op()
            gc.collect()
            m = mem()
            grow.append(m - last)
            last = m
        c.maxv("bytes per repetition left: " + n.split(",")[0], max(min(grow), 0) / reps) if min(grow) > 0 else None
        c.check(min(grow) < 8 * reps, "leak:" + n, "memory in use grows by %s bytes in rounds of %d times: %s", grow, reps, n)
        c.count("operations measured")
        c.distinct("lk", n)
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(scr, ignore_errors=True)


AREAS = [("histories", a_history), ("temporaries", a_temporaries), ("histories", a_history), ("trackers", a_tracker), ("histories", a_history), ("wrong uses", a_errors),
         ("any arguments", a_fuzz), ("memory growth", a_leaks), ("any arguments", a_fuzz)]

if __name__ == "__main__":
    main(AREAS, RULE, os.environ["VERIF_CORE"])
