/* C25: matching of detections to calibration points. Oracle: brute force nearest. */
#include "calib.hpp"
const char *CHECK_RULE = "distinct matching problems (hash of camera, radius and detection list)";
void run_case(Case &c) {
    Rng &r = c.r; CalibCase k; make_calib(r, k, 0, r.p(0.03) ? 600 : 60, r.p(0.5));
    /* calibration points outside the image, or far off, belong to real plates too */
    for (int q = r.i(0, 6); q > 0; q--) { double m = r.pick({1.0, 3.0}); for (int j = 0; j < 3; j++) k.fix.push_back((&k.s.off.x)[j] + r.u(-1, 1) * m * k.s.half * 0.5); }
    if (k.fix.size() && r.p(0.2)) { size_t q = 3 * r.i(0, (int)k.fix.size() / 3 - 1); k.fix.insert(k.fix.end(), {k.fix[q], k.fix[q + 1], k.fix[q + 2]}); }
    int eps = r.pick({1, 3, 8, 25, 25, 100, 0});
    double sc = std::max(eps, 1);
    std::vector<target> pix = k.pix;
    auto project = [&](const double *q, double *px, double *py) { double x, y; vec3d p = {q[0], q[1], q[2]}; img_coord(p, &k.truth(), &k.s.mm, &x, &y); metric_to_pixel(px, py, x, y, &k.s.cp); };
    /* points projecting onto the margin around the image, each with a detection nearby */
    if (k.fix.size() && eps > 0) for (int q = r.i(0, 6); q > 0; q--) {
        size_t i0 = 3 * r.i(0, (int)k.fix.size() / 3 - 1); double a[3], b[3], m[3], px, py; int axis = r.i(0, 1); bool low = r.p(0.5);
        for (int j = 0; j < 3; j++) { a[j] = k.fix[i0 + j]; b[j] = a[j] + r.u(-1, 1) * r.pick({3, 10, 30}) * k.s.half * (j == 2 ? 0.01 : 1); }
        double want = low ? -r.u(-0.2, 1.1) * eps : (axis ? k.s.cp.imy : k.s.cp.imx) + r.u(-0.2, 1.1) * eps;
        auto f = [&](double t) { for (int j = 0; j < 3; j++) m[j] = a[j] + t * (b[j] - a[j]); project(m, &px, &py); return (axis ? py : px) - want; };
        double fa = f(0), fb = f(1); if (!(fa * fb < 0)) continue;
        double lo = 0, hi = 1; for (int it = 0; it < 60; it++) { double t = 0.5 * (lo + hi); if (f(t) * fa > 0) lo = t; else hi = t; }
        if (!(fabs(f(lo)) < 1)) continue;
        for (int j = 0; j < 3; j++) k.fix.push_back(m[j]);
        target t; memset(&t, 0, sizeof t); t.x = px + eps * r.u(-1, 1); t.y = py + eps * r.u(-1, 1); t.n = r.i(1, 100); t.nx = r.i(1, 9); t.ny = r.i(1, 9); t.sumg = r.i(1, 999); pix.push_back(t); c.count("points near the image border");
    }
    int nfix = (int)k.fix.size() / 3;
    for (auto &t : pix) { double a = r.p(0.5) ? 0.3 : 1.6; t.x += r.u(-a, a) * sc; t.y += r.u(-a, a) * sc; t.pnr = r.i(-5, 500); t.tnr = r.i(-1, 30); }
    for (size_t q = pix.size(); q > 0; q--) if (r.p(0.15)) pix.erase(pix.begin() + (q - 1));
    for (int q = r.p(0.02) ? r.i(1000, 6000) : r.i(0, 40); q > 0; q--) { target t; memset(&t, 0, sizeof t); t.pnr = r.i(-5, 500); t.x = r.u(-30, k.s.cp.imx + 30); t.y = r.u(-30, k.s.cp.imy + 30); t.n = r.i(1, 100); t.nx = r.i(1, 9); t.ny = r.i(1, 9); t.sumg = r.i(1, 999); t.tnr = r.i(-1, 9); pix.push_back(t); }
    r.shuffle(pix); pix.shrink_to_fit();
    int num = (int)pix.size();
    Hash h; hash_scene(h, k.s); h.i(eps); h.b(pix.data(), num * sizeof(target)); c.distinct(h.h);
    auto pix0 = pix; auto fix0 = k.fix; Calibration c0 = k.truth(); control_par cp0 = k.s.cp;
    double *fp = (double *)malloc(k.fix.size() * 8 + 1); memcpy(fp, k.fix.data(), k.fix.size() * 8);
    target *out = sortgrid(&k.truth(), &k.s.cp, nfix, (vec3d *)fp, num, eps, pix.data());
    c.eval();
    if ((num && memcmp(pix.data(), pix0.data(), num * sizeof(target))) || memcmp(fp, fix0.data(), 8 * fix0.size()) || memcmp(&c0, &k.truth(), sizeof c0) || memcmp(&cp0, &k.s.cp, sizeof cp0)) c.fail("inputs-changed", "matching changed its inputs");
    for (int i = 0; i < nfix; i++) {
        double x, y, px, py; vec3d p = {fp[3 * i], fp[3 * i + 1], fp[3 * i + 2]}; img_coord(p, &k.truth(), &k.s.mm, &x, &y); metric_to_pixel(&px, &py, x, y, &k.s.cp);
        double m = 1e-7;
        if (!std::isfinite(px) || !std::isfinite(py)) continue;
        bool seen = px > -eps + m && py > -eps + m && px < k.s.cp.imx + eps - m && py < k.s.cp.imy + eps - m;
        bool unseen = px < -eps - m || py < -eps - m || px > k.s.cp.imx + eps + m || py > k.s.cp.imy + eps + m;
        double best = 1e300; int bi = -1;
        for (int j = 0; j < num; j++) { double d = hypot(pix[j].x - px, pix[j].y - py); if (d < best) { best = d; bi = j; } }
        double bsq = 1e300; for (int j = 0; j < num; j++) if (fabs(pix[j].x - px) < eps - m && fabs(pix[j].y - py) < eps - m) bsq = std::min(bsq, hypot(pix[j].x - px, pix[j].y - py));
        const target &t = out[i]; c.eval();
        if (t.pnr != -999 && t.pnr != i) { c.fail("number", "entry %d carries point number %d", i, t.pnr); continue; }
        if (t.pnr == i) {
            c.count("points matched");
            /* which detection is it? unchanged except the number */
            int src = -1; for (int j = 0; j < num; j++) { target q = pix[j]; q.pnr = i; if (!memcmp(&q, &t, sizeof q)) { src = j; if (j == bi) break; } }
            if (src < 0) { c.fail("copied", "entry %d equals no detection", i); continue; }
            if (unseen) c.fail("outside", "point %d projected to (%g, %g), outside the image, is matched", i, px, py);
            double d = hypot(pix[src].x - px, pix[src].y - py); if (d > eps) c.count("matched in a corner of the window");
            if (d > (best < eps ? best : bsq) + 1e-7) c.fail("not-nearest", "point %d matched to a detection at %g, there is one at %g", i, d, best);
            if (fabs(pix[src].x - px) > eps + m || fabs(pix[src].y - py) > eps + m) c.fail("too-far", "point %d matched at distance %g, radius %d", i, d, eps);
        } else {
            c.count("points unmatched");
            if (seen && bsq < 1e300) { c.fail("missed", "point %d has a detection at %g, inside the window of half width %d, but is unmatched", i, bsq, eps); }
        }
    }
    /* the search itself */
    for (int q = 0; q < 5; q++) {
        double x = r.u(-10, k.s.cp.imx), y = r.u(-10, k.s.cp.imy), e = r.u(0, 60); int j = nearest_neighbour_pix(pix.data(), num, x, y, e); double best = 1e300; for (auto &t : pix) if (fabs(t.x - x) < e - 1e-9 && fabs(t.y - y) < e - 1e-9) best = std::min(best, hypot(t.x - x, t.y - y));
        c.eval(); if (j == -999) { if (best < 1e300) c.fail("search", "nothing found, one at %g inside the window %g", best, e); } else if (j < 0 || j >= num) c.fail("search", "index %d of %d", j, num); else { double d = hypot(pix[j].x - x, pix[j].y - y); if (fabs(pix[j].x - x) > e || fabs(pix[j].y - y) > e || d > best + 1e-9) c.fail("search", "found one at %g, nearest %g, radius %g", d, best, e); }
    }
    if (c.idx < 3) c.sample("%d points, %d detections, radius %d", nfix, num, eps);
    free(out); free(fp);
}
