/* C11: unambiguous scenes are matched completely and correctly. Ground truth is
   the scene itself; ambiguity is decided with an independent refraction solver. */
#include "detect.hpp"
const char *CHECK_RULE = "distinct scenes (hash of cameras, particles and visibility)";
void run_case(Case &c) {
    Rng &r = c.r; Scene s; SceneOpt o; o.cams = r.pick({2, 3, 4, 4}); o.nlay = 1; o.air = r.p(0.3); o.glass_tilt = r.p(0.5) ? 0 : 0.4; make_scene(r, s, o);
    int nc = s.nc; double zlo = s.off.z - s.half * 0.8, zhi = s.off.z + s.half * 0.8;
    s.vp.Zmin_lay[0] = s.vp.Zmin_lay[1] = zlo; s.vp.Zmax_lay[0] = s.vp.Zmax_lay[1] = zhi;
    double cc0 = s.store[0].int_par.cc; (void)cc0;
    double pix = std::max(s.cp.pix_x, s.cp.pix_y);
    s.vp.eps0 = pix * r.u(0.5, 2); s.vp.corrmin = r.u(0, 33); s.cp.allCam_flag = 0;
    s.vp.cn = s.vp.cnx = s.vp.cny = s.vp.csumg = r.p(0.5) ? 0 : 0.25;
    double noise = r.p(0.5) ? 0 : 0.05; /* pixels */
    int np = r.pick({1, 2, r.i(2, 12), r.i(5, 40)});
    struct Pt { double p[3]; bool vis[4]; double fx[4], fy[4], px[4], py[4]; int b; };
    std::vector<Pt> P; Hash h; hash_scene(h, s);
    for (int i = 0; i < np; i++) { Pt p; memset(&p, 0, sizeof p); rand_point(r, s, p.p); if (fabs(p.p[2] - s.off.z) >= s.half * 0.8 * 0.97) continue; bool fine = true;
        double ph = r.pick({0.0, 0.2, 0.5});
        for (int k = 0; k < nc; k++) { double x, y; if (exact_project(s, s.store[k], p.p, &p.fx[k], &p.fy[k]) < 0) { fine = false; break; }
            img_coord(p.p, s.cal[k], &s.mm, &x, &y); metric_to_pixel(&x, &y, x, y, &s.cp); p.px[k] = x + r.u(-1, 1) * noise; p.py[k] = y + r.u(-1, 1) * noise;
            p.vis[k] = x > 1 && y > 1 && x < s.cp.imx - 1 && y < s.cp.imy - 1 && !r.p(ph); }
        if (fine) { p.b = r.i(0, 1); P.push_back(p); h.d(p.p[0]); for (int k = 0; k < nc; k++) h.i(p.vis[k]); } }
    /* epipolar curves in each other camera: straight rays in water from the refracted path */
    auto curve = [&](const Pt &p, int a, int b, std::vector<std::array<double, 2>> &out, double *sag) {
        vec3d pos, v; ray_tracing(p.fx[a], p.fy[a], s.cal[a], s.mm, pos, v); out.clear();
        for (int k = 0; k <= 16; k++) { double z = zlo + (zhi - zlo) * k / 16, X[3]; for (int m = 0; m < 3; m++) X[m] = pos[m] + (z - pos[2]) / v[2] * v[m]; double x, y; if (exact_project(s, s.store[b], X, &x, &y) < 0) return false; out.push_back({x, y}); }
        double ux = out[16][0] - out[0][0], uy = out[16][1] - out[0][1], L = hypot(ux, uy); *sag = 0; for (auto &q : out) *sag = std::max(*sag, L > 0 ? fabs((q[0] - out[0][0]) * uy - (q[1] - out[0][1]) * ux) / L : 0); return true; };
    auto segd = [](double px, double py, const std::array<double, 2> &a, const std::array<double, 2> &b) { double ux = b[0] - a[0], uy = b[1] - a[1], l2 = ux * ux + uy * uy, t = l2 > 0 ? ((px - a[0]) * ux + (py - a[1]) * uy) / l2 : 0; t = std::max(0.0, std::min(1.0, t)); return hypot(px - a[0] - t * ux, py - a[1] - t * uy); };
    /* band wide enough for sag, noise and image corrections */
    double worst = 0;
    for (auto &p : P) for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) { std::vector<std::array<double, 2>> cv; double sag; if (!curve(p, a, b, cv, &sag)) return; worst = std::max(worst, sag); }
    s.vp.eps0 = std::max(s.vp.eps0, worst * 1.3 + pix * noise * 6 + 2e-5 * s.store[0].int_par.cc + 0.05 * pix);
    if (s.vp.eps0 > 15 * pix) { c.count("scenes with too much refraction, skipped"); return; }
    /* drop particles that make a detection ambiguous */
    for (size_t i = 0; i < P.size();) { bool bad = false;
        for (size_t j = 0; j < P.size() && !bad; j++) if (j != i) for (int a = 0; a < nc && !bad; a++) for (int b = a + 1; b < nc && !bad; b++) {
            for (int w = 0; w < 2; w++) { const Pt &p = w ? P[i] : P[j], &q = w ? P[j] : P[i]; if (!p.vis[a] || !q.vis[b]) continue;
                std::vector<std::array<double, 2>> cv; double sag; curve(p, a, b, cv, &sag);
                double e = s.vp.eps0; double x0 = std::min(cv[0][0], cv[16][0]), x1 = std::max(cv[0][0], cv[16][0]), y0 = std::min(cv[0][1], cv[16][1]), y1 = std::max(cv[0][1], cv[16][1]); (void)x0; (void)x1; (void)y0; (void)y1;
                if (segd(q.fx[b], q.fy[b], cv[0], cv[16]) < 3 * e + pix) { bad = true; break; } }
        }
        if (bad) P.erase(P.begin() + i); else i++; }
    if (P.empty()) return;
    Detections D; D.nc = nc; D.num.assign(nc, 0); D.tg.assign(nc, 0); D.owner.resize(nc);
    for (int k = 0; k < nc; k++) { std::vector<int> ids; for (size_t i = 0; i < P.size(); i++) if (P[i].vis[k]) ids.push_back(i); r.shuffle(ids);
        D.num[k] = ids.size(); D.tg[k] = (target *)malloc(ids.size() * sizeof(target) + 1); D.owner[k] = ids;
        for (size_t i = 0; i < ids.size(); i++) { const Pt &p = P[ids[i]]; set_target(D.tg[k][i], p.px[k], p.py[k], p.b ? 20 : 30, p.b ? 5 : 6, p.b ? 5 : 6, p.b ? 800 : 1200); D.tg[k][i].pnr = i; } }
    D.finish(s); int counts[4];
    n_tupel *con = correspondences(&D.frm, D.crd.data(), &s.vp, &s.cp, s.cal.data(), counts); c.eval(); c.distinct(h.h);
    if (!con) { c.fail("no-result", "matching returned nothing"); return; }
    std::vector<int> found(P.size(), 0);
    for (int i = 0; i < counts[3]; i++) { int who = -2; std::set<int> cams; for (int k = 0; k < nc; k++) { int q = con[i].p[k]; if (q < 0) continue; int w = D.owner[k][D.crd[k][q].pnr]; cams.insert(k); if (who == -2) who = w; else if (who != w) { c.fail("mixed", "group %d mixes particles %d and %d (%d cameras, %zu particles, band %g)", i, who, w, nc, P.size(), s.vp.eps0); who = -1; break; } }
        if (who < 0) continue; found[who]++; for (int k = 0; k < nc; k++) if (P[who].vis[k] && !cams.count(k)) { c.fail("incomplete", "particle %d is seen by camera %d but its group lacks it", who, k); break; } }
    for (size_t i = 0; i < P.size(); i++) { int m = 0; for (int k = 0; k < nc; k++) m += P[i].vis[k]; c.eval();
        if (m >= 2) { c.count(m == 2 ? "particles seen by 2" : m == 3 ? "particles seen by 3" : "particles seen by 4"); if (found[i] != 1) c.fail("missed", "particle %zu of %zu seen by %d of %d cameras is in %d groups (band %g, noise %g)", i, P.size(), m, nc, found[i], s.vp.eps0, noise); }
        else if (found[i]) c.fail("invented", "particle seen by %d camera(s) is grouped", m); else c.count("particles seen by fewer than 2"); }
    if (c.idx < 4) c.sample("%d cameras, %zu particles, groups %d/%d/%d, band %.3g", nc, P.size(), counts[0], counts[1], counts[2], s.vp.eps0);
    free(con);
}
