/* Random but physically valid measurement scenes. */
#ifndef VERIF_SCENE_HPP
#define VERIF_SCENE_HPP
#include "common.hpp"

struct V3 { double x, y, z; };
static inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static inline V3 operator*(V3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
static inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static inline double len(V3 a) { return sqrt(dot(a, a)); }
static inline V3 unit(V3 a) { return a * (1.0 / len(a)); }
static inline V3 v3(const double *p) { return {p[0], p[1], p[2]}; }

/* reference rotation, written independently: R = Rx(omega) * Ry(phi) * Rz(kappa) */
struct M3 { double m[3][3]; };
static inline M3 mul(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    r.m[i][j] = 0; for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static inline M3 ref_rotation(double o, double p, double k) {
    M3 X = {{{1, 0, 0}, {0, cos(o), -sin(o)}, {0, sin(o), cos(o)}}};
    M3 Y = {{{cos(p), 0, sin(p)}, {0, 1, 0}, {-sin(p), 0, cos(p)}}};
    M3 Z = {{{cos(k), -sin(k), 0}, {sin(k), cos(k), 0}, {0, 0, 1}}};
    return mul(mul(X, Y), Z);
}
static inline double rot_err(const Exterior &e) {
    M3 r = ref_rotation(e.omega, e.phi, e.kappa); double m = 0;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double d = fabs(r.m[i][j] - e.dm[i][j]); if (!(d <= m)) m = d; }
    return m;
}
static inline void set_ref_dm(Exterior &e) { M3 r = ref_rotation(e.omega, e.phi, e.kappa); memcpy(e.dm, r.m, sizeof r.m); }

struct SceneOpt {
    int cams = 0;            /* 0: random 1..4 */
    int mincams = 1, maxcams = 4;
    double glass_tilt = 0.5; /* max tilt of glass normal against +-Z, rad; 0: exactly along z */
    bool air = false;        /* all-air */
    int nlay = 1;            /* number of layers; -1 random 1..3 */
    double distortion = 1.0; /* scale of distortions; 0 none */
    double cone = 0.6;       /* max angle of camera off the glass normal */
    double half = 20;        /* half size of the measurement volume */
    bool principal = true;
    int chfield = 0;         /* -1 random */
    bool sep = true;         /* cameras well apart in angle */
    double shift = 0.25;     /* probability of a volume that isn't around the origin */
};

struct Scene {
    int nc = 0;
    std::vector<Calibration> store;
    std::vector<Calibration *> cal;
    mm_np mm;
    control_par cp;
    volume_par vp;
    V3 gl;      /* glass vector */
    V3 nrm;     /* unit normal, water -> camera */
    V3 off = {0, 0, 0}; /* centre of the volume */
    double half;
    std::vector<std::string> names;
    std::vector<char *> nm;
    Scene() {}
    Scene(const Scene &) = delete;
    ~Scene() { for (auto &c : store) free(c.mmlut.data); }
};

/* angles so that the third column of the rotation points from target to camera */
static inline void look_at(Exterior &e, V3 cam, V3 target, double kappa) {
    V3 b = unit(cam - target);
    e.x0 = cam.x; e.y0 = cam.y; e.z0 = cam.z;
    e.phi = asin(std::max(-1.0, std::min(1.0, b.x)));
    e.omega = atan2(-b.y, b.z);
    e.kappa = kappa;
    set_ref_dm(e);
}

static inline void random_distortion(Rng &r, ap_52 &a, double rmax, double scale) {
    /* coefficients chosen so each term moves a corner point by at most ~1.5% of the radius */
    double m = 0.015 * scale;
    a.k1 = a.k2 = a.k3 = a.p1 = a.p2 = 0; a.scx = 1; a.she = 0;
    if (scale <= 0) return;
    if (r.p(0.7)) a.k1 = r.u(-m, m) / (rmax * rmax);
    if (r.p(0.4)) a.k2 = r.u(-m, m) / pow(rmax, 4) * 0.5;
    if (r.p(0.3)) a.k3 = r.u(-m, m) / pow(rmax, 6) * 0.3;
    if (r.p(0.5)) a.p1 = r.u(-m, m) / rmax / 6;
    if (r.p(0.5)) a.p2 = r.u(-m, m) / rmax / 6;
    if (r.p(0.5)) a.scx = 1 + r.u(-0.03, 0.03) * scale;
    if (r.p(0.5)) a.she = r.u(-0.02, 0.02) * scale;
}

static inline void make_scene(Rng &r, Scene &s, const SceneOpt &o) {
    s.nc = o.cams ? o.cams : r.i(o.mincams, o.maxcams);
    s.half = o.half * r.u(0.5, 1.5);
    double sgn = r.p(0.5) ? 1 : -1;
    double t = o.glass_tilt * (r.p(0.3) ? 0 : r.u()), az = r.u(0, 6.283185307);
    V3 n = {sin(t) * cos(az), sin(t) * sin(az), sgn * cos(t)};
    s.nrm = n;
    double G = s.half * 1.8 + r.u(5, 100);
    s.gl = n * G;
    memset(&s.mm, 0, sizeof s.mm);
    if (o.air) { s.mm.nlay = 1; s.mm.n1 = s.mm.n2[0] = s.mm.n3 = 1; s.mm.d[0] = r.p(0.5) ? 0.0 : r.u(0.5, 10); }
    else {
        s.mm.nlay = o.nlay < 0 ? r.i(1, 3) : o.nlay;
        s.mm.n1 = 1; s.mm.n3 = r.pick({1.0, 1.33, 1.33, 1.46, r.u(1.0, 1.5)});
        for (int k = 0; k < 3; k++) { s.mm.n2[k] = k < s.mm.nlay ? r.pick({1.46, 1.5, r.u(1.05, 1.7)}) : 1.0;
                                      s.mm.d[k] = k < s.mm.nlay ? r.u(0.5, 12) : 0.0; }
        /* some of the media alike, but not all of them air */
        if (r.p(0.12)) { int m = r.i(1, 7); if (m & 1) s.mm.n2[0] = 1; if (m & 2) s.mm.n3 = 1; if (m & 4) s.mm.n3 = s.mm.n2[s.mm.nlay - 1]; }
    }
    memset(&s.cp, 0, sizeof s.cp);
    s.cp.num_cams = s.nc;
    s.cp.imx = r.pick({1280, 1024, 640, 512, r.i(300, 2100)});
    s.cp.imy = r.pick({1024, 1280, 480, 512, r.i(300, 2100)});
    s.cp.pix_x = r.u(0.004, 0.02); s.cp.pix_y = r.p(0.5) ? s.cp.pix_x : s.cp.pix_x * r.u(0.8, 1.25);
    s.cp.chfield = o.chfield < 0 ? r.i(0, 2) : o.chfield;
    s.cp.mm = &s.mm;
    s.cp.hp_flag = 1; s.cp.tiff_flag = 1;
    s.names.clear(); s.nm.clear();
    for (int k = 0; k < 4; k++) s.names.push_back(sfmt("img/cam%d.", k + 1));
    for (int k = 0; k < 4; k++) s.nm.push_back((char *)s.names[k].c_str());
    s.cp.img_base_name = s.nm.data(); s.cp.cal_img_base_name = s.nm.data();
    double sx = s.cp.imx * s.cp.pix_x / 2, sy = s.cp.imy * s.cp.pix_y / 2, rmax = sqrt(sx * sx + sy * sy);
    s.store.assign(s.nc, Calibration());
    s.cal.clear();
    /* orthonormal frame around n */
    V3 e1 = unit(fabs(n.x) < 0.9 ? cross(n, V3{1, 0, 0}) : cross(n, V3{0, 1, 0})), e2 = cross(n, e1);
    double az0 = r.u(0, 6.283185307);
    for (int k = 0; k < s.nc; k++) {
        Calibration &c = s.store[k];
        memset(&c, 0, sizeof c);
        double th = o.cone * r.u(o.sep ? 0.35 : 0.0, 1.0);
        double a = az0 + k * 6.283185307 / s.nc + r.u(-0.3, 0.3);
        double tz = cos(th);
        V3 d = n * tz + (e1 * cos(a) + e2 * sin(a)) * sin(th);
        double dist = (G + s.mm.d[0]) / tz + r.u(120, 700);
        V3 cam = d * dist;
        V3 tgt = {r.u(-0.1, 0.1) * s.half, r.u(-0.1, 0.1) * s.half, r.u(-0.1, 0.1) * s.half};
        look_at(c.ext_par, cam, tgt, r.p(0.5) ? r.u(-0.2, 0.2) : r.u(-3.1, 3.1));
        /* focal length: the volume's image about fills the sensor, with margin */
        double apparent = s.half * 1.75 / (dist - s.half * 2);
        c.int_par.cc = std::min(sx, sy) / apparent * r.u(0.55, 0.75);
        if (o.principal && r.p(0.7)) { c.int_par.xh = r.u(-0.03, 0.03) * sx; c.int_par.yh = r.u(-0.03, 0.03) * sy; }
        c.glass_par.vec_x = s.gl.x; c.glass_par.vec_y = s.gl.y; c.glass_par.vec_z = s.gl.z;
        random_distortion(r, c.added_par, rmax, o.distortion);
        s.cal.push_back(&c);
    }
    /* everything moves along the glass, whose vector from the origin stays */
    s.off = {0, 0, 0};
    if (r.p(o.shift)) { double m = s.half * r.pick({0.5, 2.0, 20.0}); s.off = e1 * (m * r.u(-1, 1)) + e2 * (m * r.u(-1, 1)); for (auto &c : s.store) { c.ext_par.x0 += s.off.x; c.ext_par.y0 += s.off.y; c.ext_par.z0 += s.off.z; } }
    for (int k = 0; k < s.nc; k++) s.cal[k] = &s.store[k];
    memset(&s.vp, 0, sizeof s.vp);
    s.vp.X_lay[0] = s.off.x - s.half; s.vp.X_lay[1] = s.off.x + s.half;
    s.vp.Zmin_lay[0] = s.vp.Zmin_lay[1] = s.off.z - s.half;
    s.vp.Zmax_lay[0] = s.vp.Zmax_lay[1] = s.off.z + s.half;
    s.vp.cn = s.vp.cnx = s.vp.cny = s.vp.csumg = 0.02; s.vp.eps0 = 0.05; s.vp.corrmin = 33;
}
static inline void rand_point(Rng &r, const Scene &s, double *p) {
    /* inside a ball of the volume half-size: always on the water side of the glass */
    do { for (int k = 0; k < 3; k++) p[k] = r.u(-s.half, s.half); } while (p[0] * p[0] + p[1] * p[1] + p[2] * p[2] > s.half * s.half);
    p[0] += s.off.x; p[1] += s.off.y; p[2] += s.off.z;
}
/* nearer to (or away from) the middle of the volume */
static inline void toward(const Scene &s, double *p, double f) { const double o[3] = {s.off.x, s.off.y, s.off.z}; for (int j = 0; j < 3; j++) p[j] = o[j] + f * (p[j] - o[j]); }
static inline void hash_scene(Hash &h, const Scene &s) {
    for (auto &c : s.store) { h.b(&c.ext_par, sizeof c.ext_par); h.b(&c.int_par, sizeof c.int_par); h.b(&c.added_par, sizeof c.added_par); }
    h.b(&s.gl, sizeof s.gl); h.b(s.mm.n2, sizeof s.mm.n2); h.d(s.mm.n3);
}

/* Independent exact solution of the refraction problem: camera at height H
   above the water side of layer stack, point at depth `z` below; media
   thicknesses. Returns sine invariant q = n1*sin(beta1) by bisection, such that
   total radial distance equals R. heights: air gap ha with n1, layers d_i, n2_i, water hw with n3. */
static inline double solve_invariant(double R, double ha, double n1, int nl, const double *n2, const double *d, double hw, double n3, double *err) {
    double qmax = std::min(n1, n3); for (int k = 0; k < nl; k++) qmax = std::min(qmax, n2[k]);
    auto f = [&](double q) { auto tn = [&](double n) { return q / sqrt(std::max(1e-300, n * n - q * q)); };
        double t = ha * tn(n1) + hw * tn(n3); for (int k = 0; k < nl; k++) t += d[k] * tn(n2[k]); return t; };
    double lo = 0, hi = qmax * (1 - 1e-15);
    for (int it = 0; it < 200; it++) { double mid = 0.5 * (lo + hi); if (f(mid) < R) lo = mid; else hi = mid; }
    double q = 0.5 * (lo + hi); if (err) *err = fabs(f(q) - R); return q;
}
/* Exact physical projection of p into camera cal (flat metric coordinates):
   the refracted path camera -> layers -> point lies in the plane spanned by the
   glass normal and the camera-point vector.  Extra layers (index >= 1) lie on
   the water side of the glass.  Returns the sine of the incidence angle in air,
   or -1 when the geometry is not camera-above/point-below the glass. */
static inline double exact_project(const Scene &s, const Calibration &cal, const double *p, double *x, double *y) {
    V3 n = s.nrm, C = v3(&cal.ext_par.x0), P = v3(p);
    double G = len(s.gl);
    double hc = dot(C, n) - G - s.mm.d[0];       /* air gap */
    double hp = G - dot(P, n);                   /* depth below water side of first layer */
    for (int k = 1; k < s.mm.nlay; k++) hp -= s.mm.d[k];
    if (hc <= 0 || hp <= 0) return -1;
    V3 diff = P - C; V3 par = diff - n * dot(diff, n);
    double R = len(par), err;
    double q = solve_invariant(R, hc, s.mm.n1, s.mm.nlay, s.mm.n2, s.mm.d, hp, s.mm.n3, &err);
    double sb = q / s.mm.n1, tb = sb / sqrt(1 - sb * sb);
    V3 dir = n * -1.0; if (R > 0) dir = dir + par * (tb / R);
    M3 M = ref_rotation(cal.ext_par.omega, cal.ext_par.phi, cal.ext_par.kappa);
    double dx = M.m[0][0] * dir.x + M.m[1][0] * dir.y + M.m[2][0] * dir.z, dy = M.m[0][1] * dir.x + M.m[1][1] * dir.y + M.m[2][1] * dir.z, dz = M.m[0][2] * dir.x + M.m[1][2] * dir.y + M.m[2][2] * dir.z;
    *x = -cal.int_par.cc * dx / dz; *y = -cal.int_par.cc * dy / dz;
    return sb;
}
#endif
