/* C04: the refraction lookup table. Monitored: image coordinates with and
   without the table over random covered, boundary and uncovered points; the
   camera's other fields bitwise; heap bounds of the table (ASan). */
#include "scene.hpp"
const char *CHECK_RULE = "distinct random scenes (hash of camera, glass and media parameters) in which the table was built and queried";

static double *no_table(Calibration &c) { double *d = c.mmlut.data; c.mmlut.data = NULL; return d; }

void run_case(Case &c) {
    Rng &r = c.r;
    Scene s; SceneOpt o; o.cams = 1; o.nlay = -1; o.half = r.pick({8.0, 20.0, 45.0}); o.distortion = r.p(0.5) ? 1 : 0;
    o.glass_tilt = r.p(0.3) ? 0 : 0.5; o.cone = r.pick({0.1, 0.3, 0.5});
    make_scene(r, s, o);
    /* volume bounds of both kinds: tilted layers, positive and negative, off grid */
    for (int k = 0; k < 2; k++) { s.vp.Zmin_lay[k] += r.u(-3, 3); s.vp.Zmax_lay[k] += r.u(-3, 3); }
    Calibration &cal = s.store[0];
    /* a corner ray nearly parallel to the glass only makes the table huge */
    { M3 M = ref_rotation(cal.ext_par.omega, cal.ext_par.phi, cal.ext_par.kappa);
      double sx = s.cp.imx * s.cp.pix_x / 2, sy = s.cp.imy * s.cp.pix_y / 2;
      for (int k = 0; k < 4; k++) {
          double v[3] = {(k & 1 ? sx : -sx) - cal.int_par.xh, (k & 2 ? sy : -sy) - cal.int_par.yh, -cal.int_par.cc};
          V3 d = unit({M.m[0][0]*v[0]+M.m[0][1]*v[1]+M.m[0][2]*v[2], M.m[1][0]*v[0]+M.m[1][1]*v[1]+M.m[1][2]*v[2], M.m[2][0]*v[0]+M.m[2][1]*v[1]+M.m[2][2]*v[2]});
          if (-dot(d, s.nrm) < 0.72) { c.count("scenes with too wide a view, not used"); return; } } }
    Hash h; hash_scene(h, s); c.distinct(h.h);
    int rebuilds = r.p(0.25) ? 2 : 1;
    for (int b = 0; b < rebuilds; b++) {
        if (b) { /* the user changes the volume or moves the camera and builds the table again */
            for (int k = 0; k < 2; k++) { s.vp.Zmin_lay[k] -= r.u(0, 12); s.vp.Zmax_lay[k] += r.u(0, 12); }
            if (r.p(0.5)) { cal.ext_par.z0 *= 1 + r.u(0, 0.1); cal.ext_par.x0 += r.u(-3, 3); }
            c.count("tables built again");
        }
        Calibration before = cal;
        volume_par vb = s.vp; control_par cb = s.cp; mm_np mb = s.mm;
        init_mmlut(&s.vp, &s.cp, &cal);
        if (memcmp(&before.ext_par, &cal.ext_par, sizeof cal.ext_par) || memcmp(&before.int_par, &cal.int_par, sizeof cal.int_par) ||
            memcmp(&before.glass_par, &cal.glass_par, sizeof cal.glass_par) || memcmp(&before.added_par, &cal.added_par, sizeof cal.added_par))
            c.fail("camera-changed", "building the table changed the camera's parameters");
        if (memcmp(&vb, &s.vp, sizeof vb) || memcmp(&cb, &s.cp, sizeof cb) || memcmp(&mb, &s.mm, sizeof mb))
            c.fail("parameters-changed", "building the table changed volume, control or media parameters");
        if (!cal.mmlut.data || cal.mmlut.nr < 2 || cal.mmlut.nz < 2 || cal.mmlut.rw < 1) { c.fail("no-table", "no table after init_mmlut"); return; }
    }
    c.eval();
    const int nr = cal.mmlut.nr, nz = cal.mmlut.nz, rw = cal.mmlut.rw;
    const double Rtab = (nr - 1.0) * rw, Z0 = cal.mmlut.origin[2], Z1 = Z0 + (nz - 1.0) * rw;
    std::vector<double> table(cal.mmlut.data, cal.mmlut.data + (size_t)nr * nz);
    double n_[3] = {s.nrm.x, s.nrm.y, s.nrm.z};
    (void)n_;
    V3 e1 = unit(fabs(s.nrm.x) < 0.9 ? cross(s.nrm, V3{1, 0, 0}) : cross(s.nrm, V3{0, 1, 0})), e2 = cross(s.nrm, e1);
    V3 C = v3(&cal.ext_par.x0); double G = len(s.gl);
    for (int q = 0; q < 60; q++) {
        double p[3]; int kind = q % 6; double Rp, zp;
        if (kind == 0) rand_point(r, s, p);
        else {
            /* place a point by its table coordinates: radius and signed height over the glass */
            switch (kind) {
            case 1: Rp = r.u(0, Rtab); zp = r.u(Z0, Z1); break;
            case 2: Rp = Rtab + r.pick({-1e-9, 1e-9, 0.5 * rw, 1.5 * rw, -0.5 * rw, 0.0, 1.0 * rw, r.u(0, 100)}); zp = r.u(Z0, Z1); break;
            case 3: Rp = r.u(0, Rtab); zp = Z0 - r.pick({1e-9, -1e-9, 0.3 * rw, 0.99 * rw, 1.5 * rw, r.u(0, 50)}); break;
            case 4: Rp = r.u(0, Rtab); zp = Z1 + r.pick({1e-9, -1e-9, 0.4 * rw, 1.0 * rw, 1.7 * rw, -0.5 * rw, r.u(0, 50)}); break;
            default: Rp = r.p(0.5) ? r.u(0, 1.5 * rw) : Rtab + r.u(-1, 2) * rw; zp = r.p(0.5) ? Z0 + r.u(-1, 1) * rw : Z1 + r.u(-1, 2) * rw; break;
            }
            double az = r.u(0, 6.283185307);
            V3 foot = C - s.nrm * dot(C, s.nrm);
            V3 P = s.nrm * (G + zp) + foot + (e1 * cos(az) + e2 * sin(az)) * Rp;
            p[0] = P.x; p[1] = P.y; p[2] = P.z;
        }
        V3 P = v3(p); V3 d = P - C;
        double extra = 0; for (int k = 1; k < s.mm.nlay; k++) extra += s.mm.d[k];
        double z = dot(P, s.nrm) - G, R = len(d - s.nrm * dot(d, s.nrm));
        if (z > -extra - 0.05) continue;           /* not on the water side: out of domain */
        double hc = dot(C, s.nrm) - G;
        double sinb = R / sqrt(R * R + (hc - z) * (hc - z));
        if (sinb > 0.6) continue;                  /* beyond the documented convergence domain of the solver */
        double xt, yt, x0, y0, xf, yf;
        img_coord(p, &cal, &s.mm, &xt, &yt);
        flat_image_coord(p, &cal, &s.mm, &xf, &yf);
        double *data = no_table(cal);
        img_coord(p, &cal, &s.mm, &x0, &y0);
        double fx, fy; flat_image_coord(p, &cal, &s.mm, &fx, &fy);
        /* reference values of the shift at the surrounding nodes, from the solver itself */
        Calibration ct; memset(&ct, 0, sizeof ct); ct.ext_par.z0 = hc;
        int ir = (int)floor(R / rw), iz = (int)floor((z - Z0) / rw); double lo = 1e9, hi = -1e9, tr;
        { vec3d pt = {R, 0, z}; tr = multimed_r_nlay(&ct, &s.mm, pt); }
        for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
            vec3d pt = {(ir + a) * (double)rw, 0, Z0 + (iz + b) * (double)rw}; double m = multimed_r_nlay(&ct, &s.mm, pt);
            lo = std::min(lo, m); hi = std::max(hi, m); }
        cal.mmlut.data = data;
        c.eval();
        double eps = 1e-7;
        bool covered = R <= Rtab - eps && z >= Z0 + eps && z <= Z1 - eps;
        bool outside = R > Rtab + eps || z < Z0 - eps || z > Z1 + eps;
        if (!std::isfinite(xt) || !std::isfinite(yt)) { c.fail("not-finite", "R=%g z=%g -> (%g, %g)", R, z, xt, yt); continue; }
        if (outside) {
            c.count("uncovered points");
            if (memcmp(&xt, &x0, 8) || memcmp(&yt, &y0, 8))
                c.fail("uncovered-differs", "R=%.9g (table to %.9g) z=%.9g (table %.9g..%.9g): with table (%.12g, %.12g) without (%.12g, %.12g)", R, Rtab, z, Z0, Z1, xt, yt, x0, y0);
            continue;
        }
        c.count(covered ? "covered points" : "points on the table's rim");
        /* lateral object-space error <= R * (share of the range of the cell) + solver tolerances; mapped to the image by the magnification */
        double lat = R * (hi - lo) * (ir >= 1 ? 0.1 : 1.0) + 0.004;
        double scale = cal.int_par.cc / fabs(cal.ext_par.dm[0][2] * d.x + cal.ext_par.dm[1][2] * d.y + cal.ext_par.dm[2][2] * d.z) * 1.8;
        double err = hypot(xf - fx, yf - fy);
        c.maxv("flat image error / bound", err / (lat * scale + 1e-9));
        if (ir >= 1) c.maxv("largest R*range in a cell", R*(hi-lo));
        if (ir >= 1) c.maxv("lateral error (object units), away from the axis", err / scale);
        if (ir >= 1 && hi > lo) c.maxv("error minus 0.002 / cell range", std::max(0.0, err / scale - 0.002) / (R * (hi - lo)));
        if (err > lat * scale + 1e-9) c.fail("table-error", "R=%g z=%g cell (%d,%d) of %dx%d: flat image differs by %g, bound %g (shift %g..%g, true %g)", R, z, ir, iz, nr, nz, err, lat * scale, lo, hi, tr);
        double errd = hypot(xt - x0, yt - y0);
        if (hypot(fx, fy) < 0.8 * hypot(s.cp.imx * s.cp.pix_x, s.cp.imy * s.cp.pix_y) && errd > 1.5 * (lat * scale) + 1e-9) c.fail("table-error-distorted", "R=%g z=%g: image differs by %g, bound %g", R, z, errd, 1.5 * lat * scale);
        double m = get_mmf_from_mmlut(&cal, (vec3d){R, 0, z});
        if (m != 0 && (m < lo - 0.0005 || m > hi + 0.0005)) c.fail("outside-cell", "shift %.9g outside its cell's range %.9g..%.9g", m, lo, hi);
        if (covered && m == 0) c.fail("covered-rejected", "R=%g z=%g inside the table is not looked up", R, z);
    }
    /* positions that no table covers, however far: triangulation of nearly parallel rays gives them */
    for (int q = 0; q < 12; q++) {
        double far = pow(10, r.u(5, 17)); if (q == 10) far = INFINITY; if (q == 11) far = NAN;
        int kind = r.i(0, 2); vec3d p = {r.u(0, Rtab), 0, r.u(Z0, Z1)}; if (kind != 1) p[2] = r.p(0.5) ? far : -far; if (kind != 0) p[r.i(0, 1)] = r.p(0.5) ? far : -far;
        double m = get_mmf_from_mmlut(&cal, p); c.eval(); c.count("very distant positions looked up");
        if (m != 0) c.fail("distant-looked-up", "position (%g, %g, %g), far outside the table, has the shift %g in it", p[0], p[1], p[2], m);
    }
    if (memcmp(table.data(), cal.mmlut.data, sizeof(double) * nr * nz)) c.fail("table-changed", "a lookup changed the table");
    if (c.idx < 4) c.sample("table %d x %d, step %d, z %.3g..%.3g", nr, nz, rw, Z0, Z1);
}
