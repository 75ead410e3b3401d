/* C09: candidate search in the x-sorted detections. Oracle: brute force over the whole list. */
#include "scene.hpp"
const char *CHECK_RULE = "distinct searches (hash of detection list, segment and limits)";
void run_case(Case &c) {
    Rng &r = c.r; Scene s; SceneOpt o; o.cams = 1; make_scene(r, s, o); Calibration &cal = s.store[0];
    double sx = s.cp.imx * s.cp.pix_x / 2, sy = s.cp.imy * s.cp.pix_y / 2;
    int big = r.p(0.02), num = big ? r.pick({8191, 16383, 9000, 12000, 20000, r.i(4000, 20240)}) : r.pick({0, 1, 2, 3, 5, 7, 15, r.i(0, 60), r.i(10, 400), r.i(100, 1500)});
    int layout = r.i(0, 5);
    coord_2d *crd = (coord_2d *)malloc(num * sizeof(coord_2d) + 1); target *pix = (target *)malloc(num * sizeof(target) + 1);
    std::vector<int> pn(num); std::iota(pn.begin(), pn.end(), 0); r.shuffle(pn);
    std::vector<double> xs(num);
    for (int i = 0; i < num; i++) { double v = r.u(-1, 1); if (layout == 1) v = v * v * v; if (layout == 2) v = r.p(0.9) ? -1 + 0.01 * r.u() : v; if (layout == 3) v = r.p(0.9) ? 1 - 0.01 * r.u() : v; if (layout == 4) v = round(v * 8) / 8; xs[i] = v * sx * 1.1; }
    std::sort(xs.begin(), xs.end());
    int same = r.p(0.4), pow2 = r.p(0.15); auto sz = [&](int hi) { if (!pow2) return r.i(1, hi); int v = 1; while (r.p(0.6) && 2 * v <= hi) v *= 2; return v; };
    for (int i = 0; i < num; i++) { crd[i].x = xs[i]; crd[i].y = r.u(-1.1, 1.1) * sy; crd[i].pnr = pn[i]; }
    for (int i = 0; i < num; i++) { target &t = pix[i]; memset(&t, 0, sizeof t); t.pnr = i; t.n = same ? 20 : sz(100); t.nx = same ? 5 : sz(15); t.ny = same ? 5 : sz(15); t.sumg = same ? 300 : sz(5000); t.tnr = -1; t.x = r.u(0, 999); t.y = r.u(0, 999); }
    volume_par vp = s.vp; vp.eps0 = r.pick({0.001, 0.01, 0.05, 0.2, 1.0, r.u(0.01, 0.6)}) * (num > 300 ? 0.3 : 1);
    /* mostly limits that no ratio of small integers equals, sometimes exactly met ones */
    auto lim = [&]() { return r.p(0.4) ? 0.0 : r.p(0.2) ? r.pick({0.25, 0.5, 0.75, 1.0}) : r.u() * 0.7 + 1e-7 * M_PI; }; vp.cn = lim(); vp.cnx = lim(); vp.cny = lim(); vp.csumg = lim();
    volume_par v0 = vp; std::vector<target> p0(pix, pix + num); std::vector<coord_2d> c0(crd, crd + num); Calibration cal0 = cal; control_par cp0 = s.cp;
    for (int q = 0; q < (big ? 24 : 6); q++) {
        double xa, ya, xb, yb; int kind = r.i(0, 8);
        xa = r.u(-1.1, 1.1) * sx; ya = r.u(-1.1, 1.1) * sy; xb = r.u(-1.1, 1.1) * sx; yb = r.u(-1.1, 1.1) * sy;
        if (kind == 1) xb = xa; if (kind == 2) yb = ya; if (kind == 3) { xb = xa; yb = ya; } if (kind == 4) { xb = xa + r.u(-0.2, 0.2); yb = ya + r.u(-0.2, 0.2); }
        if (kind == 5 && num) { int j = r.p(0.6) ? r.i(0, std::min(num - 1, 15)) : r.i(0, num - 1); xa = crd[j].x; ya = crd[j].y; xb = xa + r.u(-0.3, 0.3); yb = ya + r.u(-0.3, 0.3); }
        if (kind == 6) { double f = r.pick({1.0, -1.0}); if (r.p(0.5)) { xa = f * sx * r.u(1.2, 3); xb = f * sx * r.u(1.2, 3); } else { ya = f * sy * r.u(1.2, 3); yb = f * sy * r.u(1.2, 3); } }
        if (kind == 7) { xb = xa + r.u(-1e-6, 1e-6); }
        int n = same ? 20 : sz(100), nx = same ? 5 : sz(15), ny = same ? 5 : sz(15), sg = same ? 300 : sz(5000);
        candidate *cand = (candidate *)malloc(MAXCAND * sizeof(candidate));
        int got = find_candidate(crd, pix, num, xa, ya, xb, yb, n, nx, ny, sg, cand, &vp, &s.cp, &cal);
        c.eval(); Hash h; h.i(num); h.i(layout); h.d(xa); h.d(ya); h.d(xb); h.d(yb); h.d(vp.eps0); h.i(n); if (num) h.d(crd[num / 2].x); c.distinct(h.h);
        /* sensor limits in corrected coordinates */
        double ax = -sx - cal.int_par.xh, ay = -sy - cal.int_par.yh, bx = sx - cal.int_par.xh, by = sy - cal.int_par.yh;
        correct_brown_affin(ax, ay, cal.added_par, &ax, &ay); correct_brown_affin(bx, by, cal.added_par, &bx, &by);
        double x1 = std::min(xa, xb), x2 = std::max(xa, xb), y1 = std::min(ya, yb), y2 = std::max(ya, yb), m = 1e-6;
        bool outside = x2 < ax - m || x1 > bx + m || y2 < ay - m || y1 > by + m, inside = x2 > ax + m && x1 < bx - m && y2 > ay + m && y1 < by - m;
        if (outside) { c.count("segments off the sensor"); if (got > 0) c.fail("off-sensor", "segment off the sensor has %d candidates", got); free(cand); continue; }
        if (!inside) { free(cand); continue; }
        if (got < 0 && num) { c.fail("refused", "segment (%g,%g)-(%g,%g) on the sensor refused", xa, ya, xb, yb); free(cand); continue; }
        /* brute force */
        double ddx = xb - xa, ddy = yb - ya; std::map<int, int> want; /* 1 certain, 2 uncertain */
        bool point = ddx == 0 && ddy == 0; double w = vp.eps0, L = hypot(ddx, ddy); int sure = 0;
        for (int j = 0; j < num; j++) {
            double x = crd[j].x, y = crd[j].y, g = 1e-7;
            /* a vertical (or point) segment is taken as a vertical line */
            double d = fabs(ddx) < 1e-300 ? fabs(x - xa) : fabs((y - ya) * ddx - (x - xa) * ddy) / L;
            if (point) d = std::min(fabs(x - xa), fabs(y - ya));
            double in = std::min(std::min(std::min(x - (x1 - w), x2 + w - x), std::min(y - (y1 - w), y2 + w - y)), w - d);
            const target &t = pix[crd[j].pnr]; auto qr = [](int a, int b) { return a < b ? (double)a / b : (double)b / a; };
            double a1 = qr(n, t.n), a2 = qr(nx, t.nx), a3 = qr(ny, t.ny), a4 = qr(sg, t.sumg);
            if (in < -g || a1 < vp.cn || a2 < vp.cnx || a3 < vp.cny || a4 <= vp.csumg) { if (a1 == vp.cn || a2 == vp.cnx || a3 == vp.cny || a4 == vp.csumg) c.count("limits met exactly"); continue; }
            bool certain = in > g; 
            want[j] = certain ? 1 : 2; sure += certain;
        }
        if (got == MAXCAND || sure > MAXCAND) { c.count("searches that filled the candidate list"); if (sure > MAXCAND && got != MAXCAND) c.fail("capacity", "%d candidates exist, %d reported", sure, got); }
        if (got > MAXCAND) { c.fail("capacity", "%d candidates reported", got); free(cand); continue; }
        if (got > 0) c.count("searches with candidates"); if (big) c.count("searches in long lists");
        std::set<int> have; c.count("candidates", std::max(0, got));
        for (int k = 0; k < got; k++) {
            int j = cand[k].pnr; if (j < 0 || j >= num) { c.fail("index", "candidate refers to entry %d of %d", j, num); break; }
            if (!have.insert(j).second) { c.fail("twice", "entry %d of %d reported twice", j, num); break; }
            if (!want.count(j)) { c.fail("wrong", "entry %d (%g, %g) does not qualify: segment (%g,%g)-(%g,%g) band %g", j, crd[j].x, crd[j].y, xa, ya, xb, yb, w); break; }
            double d = fabs(ddx) < 1e-300 ? fabs(crd[j].x - xa) : fabs((crd[j].y - ya) * ddx - (crd[j].x - xa) * ddy) / L;
            const target &t = pix[crd[j].pnr]; auto qr = [](int a, int b) { return a < b ? (double)a / b : (double)b / a; };
            double corr = (4 * qr(sg, t.sumg) + 2 * qr(n, t.n) + qr(nx, t.nx) + qr(ny, t.ny)) * ((double)sg + t.sumg);
            double td = 1e-7; if (fabs(ddx) < 1e-4) td = 1e-5; if (point) td = 2 * w;
            if (want[j] == 1 && fabs(cand[k].tol - d) > td) { c.fail("distance", "entry %d: distance %.10g, expected %.10g, segment (%.17g,%g)-(%.17g,%g)", j, cand[k].tol, d, xa, ya, xb, yb); break; }
            if (fabs(cand[k].corr - corr) > 1e-9 * corr) { c.fail("score", "entry %d: score %.12g expected %.12g", j, cand[k].corr, corr); break; }
        }
        if (got < MAXCAND) for (auto &x : want) if (x.second == 1 && !have.count(x.first)) { c.fail("missed", "entry %d of %d at (%g, %g) missed: segment (%g,%g)-(%g,%g) band %g, %d found", x.first, num, crd[x.first].x, crd[x.first].y, xa, ya, xb, yb, w, got); break; }
        free(cand);
    }
    if (num && (memcmp(p0.data(), pix, num * sizeof(target)) || memcmp(c0.data(), crd, num * sizeof(coord_2d)))) c.fail("inputs-changed", "search changed the lists");
    if (memcmp(&v0, &vp, sizeof vp) || memcmp(&cal0, &cal, sizeof cal) || memcmp(&cp0, &s.cp, sizeof cp0)) c.fail("inputs-changed", "search changed parameters");
    if (c.idx < 4) c.sample("%d detections (layout %d), band %g", num, layout, vp.eps0);
    free(crd); free(pix);
}
