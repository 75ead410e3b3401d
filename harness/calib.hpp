/* Camera calibration workloads shared by the monitors of C03, C23, C24 and C25. */
#ifndef VERIF_CALIB_HPP
#define VERIF_CALIB_HPP
#include "scene.hpp"
struct CalibCase {
    Scene s;
    std::vector<double> fix;      /* 3*n */
    std::vector<target> pix;
    int n = 0;
    vec3d *f() { return (vec3d *)fix.data(); }
    Calibration &truth() { return s.store[0]; }
};
/* calibration points over the volume, exact image positions of them */
static inline void make_calib(Rng &r, CalibCase &k, int nmin, int nmax, double distortion, int nlay = 1, double depth = 1.0) {
    SceneOpt o; o.cams = 1; o.nlay = nlay; o.distortion = distortion; o.half = 30; o.cone = 0.5; o.chfield = 0;
    o.glass_tilt = r.p(0.4) ? 0 : 0.4;
    make_scene(r, k.s, o);
    int n = r.i(nmin, nmax);
    k.fix.clear(); k.pix.clear();
    for (int i = 0; (int)k.pix.size() < n && i < 20 * n; i++) {
        double p[3]; rand_point(r, k.s, p); p[2] = k.s.off.z + (p[2] - k.s.off.z) * depth;
        double x, y, px, py; img_coord(p, &k.truth(), &k.s.mm, &x, &y); metric_to_pixel(&px, &py, x, y, &k.s.cp);
        if (px < 0 || py < 0 || px >= k.s.cp.imx || py >= k.s.cp.imy) continue;
        target t; memset(&t, 0, sizeof t);
        t.pnr = (int)k.pix.size(); t.x = px; t.y = py; t.n = r.i(3, 200); t.nx = r.i(2, 20); t.ny = r.i(2, 20); t.sumg = r.i(10, 9000); t.tnr = r.i(-1, 50);
        k.pix.push_back(t); for (int j = 0; j < 3; j++) k.fix.push_back(p[j]);
    }
    k.n = (int)k.pix.size();
}
static inline void nudge_exterior(Rng &r, Calibration &c, double rel) {
    V3 g = v3(&c.glass_par.vec_x); double D = fabs(dot(v3(&c.ext_par.x0), unit(g))); /* about the distance of the volume, wherever that is */
    c.ext_par.x0 += r.u(-rel, rel) * D; c.ext_par.y0 += r.u(-rel, rel) * D; c.ext_par.z0 += r.u(-rel, rel) * D;
    c.ext_par.omega += r.u(-rel, rel) * 2; c.ext_par.phi += r.u(-rel, rel) * 2; c.ext_par.kappa += r.u(-rel, rel) * 2;
    set_ref_dm(c.ext_par);
}
/* image position error of the camera over the points, metric; -1 when not finite */
static inline double reproj(CalibCase &k, Calibration &c, double *rms = 0) {
    double m = 0, s2 = 0; int n = 0;
    for (int i = 0; i < k.n; i++) {
        double x, y, mx, my; img_coord(k.f()[i], &c, &k.s.mm, &x, &y); pixel_to_metric(&mx, &my, k.pix[i].x, k.pix[i].y, &k.s.cp);
        double d = hypot(x - mx, y - my); if (!std::isfinite(d)) return -1; m = std::max(m, d); s2 += d * d; n++;
    }
    if (rms) *rms = sqrt(s2 / std::max(1, n));
    return m;
}
#endif
