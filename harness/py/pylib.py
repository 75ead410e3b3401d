"""Common part of the Python-level monitors: case driver, results in the format of the C
harnesses, calls of the core library (pycore.c) and generators of scenes and arrays."""
import ctypes, hashlib, math, os, random, sys, traceback
import numpy as np


class Results:
    def __init__(self):
        self.evals, self.counts, self.maxima, self.samples, self.fails, self.hashes = 0, {}, {}, [], [], set()

    def write(self, out, rule):
        with open(out, "w") as f:
            f.write("RULE\t%s\n" % rule)
            f.write("EVALS\t%d\n" % self.evals)
            for k, v in self.counts.items():
                f.write("COUNT\t%s\t%d\n" % (k, v))
            for k, v in self.maxima.items():
                f.write("MAX\t%s\t%r\n" % (k, v))
            for s in self.samples[:6]:
                f.write("SAMPLE\t%s\n" % s.replace("\n", " ").replace("\t", " "))
            for k, c, m in self.fails:
                f.write("FAIL\t%s\t%d\t%s\n" % (k, c, m.replace("\t", " ").replace("\n", "\\n")))
            f.write("END\n")
        with open(out + ".hash", "wb") as f:
            for h in self.hashes:
                f.write(h.to_bytes(8, "little"))


class Fail(Exception):
    pass


class Case:
    def __init__(self, res, seed, idx, scratch, data, pydata, thorough):
        self.res, self.idx, self.scratch, self.data, self.pydata, self.thorough = res, idx, scratch, data, pydata, thorough
        self.r = random.Random(seed * 1000003 + idx * 7919 + 17)
        self.nfail = 0

    def fail(self, key, msg, *a):
        self.nfail += 1
        if sum(1 for k, c, m in self.res.fails if k == key) < 5:
            self.res.fails.append((key, self.idx, (msg % a if a else msg)[:1800]))

    def check(self, ok, key, msg, *a):
        self.res.evals += 1
        if not ok:
            self.fail(key, msg, *a)
        return ok

    def count(self, name, n=1):
        self.res.counts[name] = self.res.counts.get(name, 0) + n

    def maxv(self, name, v):
        if not v <= self.res.maxima.get(name, -1e300):
            self.res.maxima[name] = float(v)

    def distinct(self, *a):
        h = hashlib.blake2b(repr(a).encode(), digest_size=8).digest()
        self.res.hashes.add(int.from_bytes(h, "little"))

    def sample(self, msg):
        if len(self.res.samples) < 6:
            self.res.samples.append(msg)

    def u(self, a, b):
        return self.r.uniform(a, b)

    def same(self, got, want, key, what, tol=1e-9):
        """values agree; NaN agrees with NaN only"""
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        self.res.evals += 1
        if got.shape != want.shape:
            self.fail(key, "%s: shape %s, expected %s", what, got.shape, want.shape)
            return False
        ok = (np.isnan(got) & np.isnan(want)) | (got == want) | (abs(got - want) <= tol * np.maximum(1, abs(want)))
        if not ok.all():
            ix = tuple(int(x) for x in np.argwhere(~ok)[0])
            self.fail(key, "%s: %r at %s, expected %r (%d of %d differ)", what, float(got[ix]), ix, float(want[ix]), int((~ok).sum()), ok.size)
            return False
        return True


# ---------------------------------------------------------------- core library
class Core:
    def __init__(self, path):
        self.l = ctypes.CDLL(path)
        self.l.vc_dumbbell.restype = ctypes.c_double

    @staticmethod
    def d(a):
        a = np.ascontiguousarray(a, dtype=np.float64)
        return a, a.ctypes.data_as(ctypes.c_void_p)

    @staticmethod
    def i(a):
        a = np.ascontiguousarray(a, dtype=np.int32)
        return a, a.ctypes.data_as(ctypes.c_void_p)

    def call(self, name, *args):
        """numpy arrays by address, floats as doubles, bytes as strings; returns (result, arrays)"""
        conv, keep = [], []
        for a in args:
            if isinstance(a, np.ndarray):
                assert a.flags.c_contiguous
                conv.append(ctypes.c_void_p(a.ctypes.data))
                keep.append(a)
            elif isinstance(a, (float, np.floating)):
                conv.append(ctypes.c_double(a))
            elif isinstance(a, (int, np.integer)):
                conv.append(ctypes.c_int(int(a)))
            else:
                conv.append(a)
        return getattr(self.l, name)(*conv)

    def rotation(self, cal):
        out = np.zeros(9)
        self.call("vc_rotation", cal, out)
        return out.reshape(3, 3)

    def project(self, cal, mm, pts, flat):
        out = np.zeros((len(pts), 2))
        self.call("vc_project", cal, mm, len(pts), np.ascontiguousarray(pts), out, int(flat))
        return out

    def pixel(self, cp, pts, to_pixel):
        out = np.zeros((len(pts), 2))
        self.call("vc_pixel", cp, len(pts), np.ascontiguousarray(pts), out, int(to_pixel))
        return out

    def brown(self, cal, pts, distort):
        out = np.zeros((len(pts), 2))
        self.call("vc_brown", cal, len(pts), np.ascontiguousarray(pts), out, int(distort))
        return out

    def flat(self, cal, pts, tol):
        out = np.zeros((len(pts), 2))
        self.call("vc_flat", cal, len(pts), np.ascontiguousarray(pts), out, float(tol))
        return out


# ---------------------------------------------------------------- scenes
class Scene:
    """cameras around a volume, in or out of a tank"""

    def __init__(self, c, ncams, mild=True, nlay=None):
        r = c.r
        self.nc = ncams
        self.imx, self.imy = r.choice([(1280, 1024), (640, 480), (512, 512), (800, 600)])
        pix = r.choice([0.01, 0.012, 0.017])
        self.pix = (pix, pix if r.random() < .6 else pix * c.u(.9, 1.1))
        self.half = c.u(10, 25)
        self.n1, self.n3 = 1.0, r.choice([1.0, 1.33, 1.33, 1.49])
        # the parameter files have one layer; objects may have up to three
        nlay = nlay if nlay is not None else r.choice([1, 1, 1, 2, 3])
        self.n2 = [r.choice([1.46, 1.49, 1.52, 1.33]) for _ in range(nlay)]
        self.d = [c.u(1, 8) for _ in range(nlay)]
        glass = c.u(40, 70)
        self.vol = (-self.half, self.half, -self.half * .8, self.half * .8)
        self.zs = ((-self.half * .8, self.half * .8), (-self.half * c.u(.7, .9), self.half * c.u(.7, .9)))
        self.cals = []
        for k in range(ncams):
            dist = c.u(220, 400)
            ax = (-1) ** k * c.u(.05, .35) * (1 if k % 2 == 0 else 1)
            ay = (1 if k < 2 else -1) * c.u(.02, .3)
            v = np.array([math.sin(ax), math.sin(ay), 1.0])
            v /= np.linalg.norm(v)
            pos = v * dist
            v = pos / np.linalg.norm(pos)
            phi = math.asin(v[0])
            om = math.atan2(-v[1], v[2])
            ka = c.u(-.1, .1) if r.random() < .8 else c.u(-3, 3)
            # focal length so that the volume fills about two thirds of the image
            cc = .30 * min(self.imx * self.pix[0], self.imy * self.pix[1]) * dist / (self.half * 1.3)
            s = 1 if mild else 3
            cal = np.array([pos[0], pos[1], pos[2], om, phi, ka, c.u(-.05, .05), c.u(-.05, .05), cc,
                            c.u(-.001, .001) * r.randint(0, 1), c.u(-.001, .001) * r.randint(0, 1), glass,
                            s * c.u(-5e-4, 5e-4), c.u(-1e-6, 1e-6), 0, s * c.u(-2e-4, 2e-4), s * c.u(-2e-4, 2e-4),
                            1 + c.u(-.003, .003), c.u(-.003, .003)])
            if r.random() < .2:
                cal[12:17] = 0
                cal[17:] = (1, 0)
            self.cals.append(cal)
        self.cn = [c.u(.05, .3) for _ in range(4)]
        self.eps0, self.corrmin = c.u(.02, .1), r.choice([0, 5, 33])

    def mm_arr(self):
        a = np.zeros(9)
        a[0], a[1], a[8] = len(self.n2), self.n1, self.n3
        a[2:2 + len(self.n2)] = self.n2
        a[5:5 + len(self.d)] = self.d
        return a

    def cp_arr(self, allcam=0, chfield=0, hp=0, tiff=0):
        return np.array([self.nc, self.imx, self.imy, self.pix[0], self.pix[1], chfield, hp, allcam, tiff], dtype=float)

    def vp_arr(self):
        return np.array([self.vol[0], self.vol[1], self.zs[0][0], self.zs[1][0], self.zs[0][1], self.zs[1][1],
                         self.cn[0], self.cn[1], self.cn[2], self.cn[3], self.eps0, self.corrmin])

    def points(self, c, n):
        h = self.half
        return np.array([[c.u(-h, h) * .9, c.u(-h, h) * .8, c.u(-h, h) * .65] for _ in range(n)]).reshape(n, 3)

    # binding objects with the same values
    def cpar(self, allcam=False):
        from optv.parameters import ControlParams
        return ControlParams(self.nc, flags=(['allcam'] if allcam else []), image_size=(self.imx, self.imy), pixel_size=self.pix,
                             cam_side_n=self.n1, wall_ns=self.n2, wall_thicks=self.d, object_side_n=self.n3)

    def vpar(self):
        from optv.parameters import VolumeParams
        return VolumeParams(x_span=self.vol[:2], z_spans=self.zs, pixels_tot=self.cn[0], pixels_x=self.cn[1],
                            pixels_y=self.cn[2], ref_gray=self.cn[3], epipolar_band=self.eps0, min_correlation=self.corrmin)


def mkcal(a):
    from optv.calibration import Calibration
    return Calibration(a[0:3], a[3:6], a[6:9], a[12:15], a[15:17], a[17:19], a[9:12])


def calarr(cal):
    return np.concatenate([cal.get_pos(), cal.get_angles(), cal.get_primary_point(), cal.get_glass_vec(),
                           cal.get_radial_distortion(), cal.get_decentering(), cal.get_affine()])


def layouts(c, a):
    """the same values in memory laid out differently: (name, array) pairs"""
    a = np.ascontiguousarray(a)
    out = [("contiguous", a.copy()), ("fortran", np.asfortranarray(a.copy()))]
    big = np.full(tuple(2 * s + 3 for s in a.shape), a.dtype.type(77), dtype=a.dtype)
    v = big[tuple(slice(1, 1 + 2 * s, 2) for s in a.shape)]
    v[...] = a
    out.append(("strided", v))
    rev = np.ascontiguousarray(a[::-1])
    out.append(("reversed", rev[::-1]))
    if a.ndim == 3:
        t = np.ascontiguousarray(a.transpose(1, 0, 2))
        out.append(("transposed", t.transpose(1, 0, 2)))
    if a.ndim >= 2:
        wide = np.full(a.shape[:-1] + (a.shape[-1] + 3,), a.dtype.type(55), dtype=a.dtype)
        w = wide[..., 2:2 + a.shape[-1]]
        w[...] = a
        out.append(("columns", w))
    return out


def main(areas, rule, corelib):
    import argparse
    p = argparse.ArgumentParser()
    for n in ("seed", "from", "to", "step", "thorough"):
        p.add_argument("--" + n, type=int)
    for n in ("out", "scratch", "data", "pydata"):
        p.add_argument("--" + n)
    o = vars(p.parse_args())
    res = Results()
    core = Core(corelib)
    os.chdir(o["scratch"])
    # prints of the library go nowhere
    sys.stdout.flush()
    os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
    for idx in range(o["from"], o["to"], o["step"]):
        with open(o["out"] + ".cur", "w") as f:
            f.write("%d\n" % idx)
        c = Case(res, o["seed"], idx, o["scratch"], o["data"], o["pydata"], o["thorough"])
        name, fn = areas[idx % len(areas)]
        c.area = name
        try:
            fn(c, core)
            c.count("cases of " + name)
        except Fail:
            pass
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            here = [t for t in tb if t.filename.endswith(".py")][-1]
            # an exception nobody expected, from a valid use
            c.fail("exception:%s:%s:%s" % (name, type(e).__name__, here.name), "%s", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
    res.write(o["out"], rule)
