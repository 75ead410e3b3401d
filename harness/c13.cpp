/* C13: peak based detection. Oracle: reference labelling by reachability, touch lists and
   unification; conservation of pixels and brightness in every case. */
#include "images.hpp"
const char *CHECK_RULE = "distinct detection runs (hash of image, window and limits)";
struct Pk { int pos, n = 0; long sumg = 0; int xa, xb, ya, yb, unr = -1; double x = 0, y = 0; std::vector<int> touch; };
void run_case(Case &c) {
    Rng &r = c.r; Img m; bool huge = c.idx % 1499 == 5, many = c.idx % 251 == 3;
    int W = huge ? r.i(1100, 1300) : many ? r.i(150, 320) : r.p(0.15) ? r.pick({1, 2, 3, 5}) : r.pick({r.i(3, 12), r.i(6, 40), r.i(33, 130)}), H = huge ? r.i(1100, 1300) : many ? r.i(150, 320) : r.p(0.15) ? r.pick({1, 2, 3, 5}) : r.pick({r.i(3, 12), r.i(6, 40), r.i(33, 130)});
    bool strip = c.idx % 499 == 6, bright = c.idx == 1012; if (strip) { W = r.i(32000, 70000); H = r.i(4, 7); if (r.p(0.5)) std::swap(W, H); c.count("strips longer than 32767 pixels", std::max(W, H) > 32768); } if (bright) { W = r.i(2950, 3100); H = r.i(2950, 3100); c.count("brightness sums beyond an int"); }
    m.make(W, H); int kind = bright ? 5 : strip ? r.pick({1, 3, 5}) : huge ? 5 : many ? r.pick({0, 12, 12, 12}) : r.pick({0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 10, 11, 12}); draw_image(r, m, kind); if (huge || bright || (strip && r.p(0.2))) memset(m.d, 255, (size_t)W * H);
    std::vector<uc> copy(m.d, m.d + (size_t)W * H);
    target_par tp; memset(&tp, 0, sizeof tp); int cam = r.i(0, 3);
    for (int k = 0; k < 4; k++) tp.gvthres[k] = k == cam ? (r.p(0.05) ? r.pick({254, 255}) : r.pick({0, 1, 5, 10, 20, 30, 50, 100, r.i(0, 60), r.i(0, 255)})) : r.i(0, 255);
    if (bright) tp.gvthres[cam] = r.i(0, 200); if (many) tp.gvthres[cam] = r.i(0, 30);
    tp.discont = many ? r.i(0, 20) : r.pick({0, 5, 20, 100, 255, 500, r.i(0, 300)}); bool open = r.p(0.6);
    tp.nnmin = open ? 1 : r.i(1, 8); tp.nnmax = open ? 100000000 : r.i(3, 200); tp.nxmin = open ? 1 : r.i(1, 4); tp.nxmax = open ? 100000 : r.i(2, 30); tp.nymin = open ? 1 : r.i(1, 4); tp.nymax = open ? 100000 : r.i(2, 30); tp.sumg_min = open ? 0 : r.i(0, 800); tp.cr_sz = 13;
    int xmin = 0, xmax = W, ymin = 0, ymax = H; if (bright) { tp.nnmin = tp.nxmin = tp.nymin = 1; tp.sumg_min = 0; tp.nnmax = tp.nxmax = tp.nymax = 100000000; } if (!bright && r.p(0.3)) { xmin = r.i(-3, W); xmax = r.i(xmin, W + 3); ymin = r.i(-3, H); ymax = r.i(ymin, H + 3); }
    mm_np mm; memset(&mm, 0, sizeof mm); control_par cp; memset(&cp, 0, sizeof cp); cp.imx = W; cp.imy = H; cp.num_cams = 4; cp.mm = &mm;
    target_par tp0 = tp; control_par cp0 = cp; target *pix = (target *)malloc(((size_t)W * H + 1) * sizeof(target));
    int n = peak_fit(m.d, &tp, xmin, xmax, ymin, ymax, &cp, cam, pix);
    c.eval(); Hash h; h.b(copy.data(), copy.size()); h.i(W); h.i(xmin); h.i(xmax); h.i(ymin); h.i(ymax); h.b(&tp, sizeof tp); c.distinct(h.h);
    if (memcmp(copy.data(), m.d, copy.size())) c.fail("image-changed", "detection changed the image (%dx%d)", W, H);
    if (memcmp(&tp, &tp0, sizeof tp) || memcmp(&cp, &cp0, sizeof cp)) c.fail("inputs-changed", "parameters changed");
    int X0 = std::max(1, xmin), Y0 = std::max(1, ymin), X1 = std::min(W - 1, xmax), Y1 = std::min(H, ymax) - 1;
    const int T = tp.gvthres[cam], D = tp.discont; auto I = [&](int x, int y) -> int { return copy[(size_t)y * W + x]; };
    /* invariants */
    long np = 0, ns = 0; for (int y = std::max(0, ymin); y < std::min(H, ymax); y++) for (int x = std::max(0, xmin); x < std::min(W, xmax); x++) if (I(x, y) > T) { np++; ns += I(x, y); }
    long tn = 0, ts = 0; for (int i = 0; i < n; i++) { target &t = pix[i]; tn += t.n; ts += t.sumg; c.eval();
        if (t.pnr != i || t.tnr != -1) c.fail("marks", "target %d has number %d, correspondence %d", i, t.pnr, t.tnr);
        if (t.n < tp.nnmin || t.n > tp.nnmax || t.nx < tp.nxmin || t.nx > tp.nxmax || t.ny < tp.nymin || t.ny > tp.nymax || t.sumg <= tp.sumg_min) c.fail("limits", "target of n=%d nx=%d ny=%d sumg=%d violates the limits", t.n, t.nx, t.ny, t.sumg);
        if (t.n > (long)t.nx * t.ny || t.sumg > 255L * t.n || (t.sumg <= (long)T * t.n && t.sumg < INT_MAX)) c.fail("inconsistent", "target n=%d nx=%d ny=%d sumg=%d", t.n, t.nx, t.ny, t.sumg);
        if (!(t.x >= X0 && t.x <= X1 && t.y >= Y0 && t.y <= Y1)) c.fail("centre", "centre (%g, %g) outside the window %d..%d, %d..%d", t.x, t.y, X0, X1, Y0, Y1); }
    if (tn > np || ts > ns) c.fail("conservation", "targets hold %ld pixels and brightness %ld, the window has %ld and %ld", tn, ts, np, ns);
    /* reference */
    std::vector<int> lab((size_t)W * H, 0); std::vector<Pk> pk; std::vector<std::pair<int, int>> st; bool full = false;
    for (int y = Y0; y < Y1; y++) for (int x = X0; x < X1; x++) { int g = I(x, y); if (g <= T || lab[(size_t)y * W + x]) continue; bool peak = true;
        for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) if (I(x + dx, y + dy) > g) peak = false; if (!peak) continue;
        if (pk.size() >= 4096) { full = true; break; }
        Pk p; p.pos = y * W + x; p.xa = p.xb = x; p.ya = p.yb = y; pk.push_back(p); int id = pk.size(); lab[(size_t)y * W + x] = id; st.assign(1, {x, y});
        while (!st.empty()) { auto [px, py] = st.back(); st.pop_back(); int v = I(px, py);
            for (int k = 0; k < 4; k++) { int qx = px + (k == 0) - (k == 1), qy = py + (k == 2) - (k == 3); if (qx < X0 || qx >= X1 || qy < Y0 || qy >= Y1 || lab[(size_t)qy * W + qx]) continue; int q = I(qx, qy); if (q <= T || q > v + D) continue;
                if (std::max(std::max(I(qx - 1, qy), I(qx + 1, qy)), std::max(I(qx, qy - 1), I(qx, qy + 1))) > v + D) continue; lab[(size_t)qy * W + qx] = id; st.push_back({qx, qy}); } } }
    if (full) { c.count("images with more peaks than fit"); free(pix); return; }
    bool exact = true;
    auto L = [&](int x, int y) { return x < 0 || y < 0 || x >= W || y >= H ? 0 : lab[(size_t)y * W + x]; };
    for (int y = Y0; y < Y1; y++) for (int x = X0; x < X1; x++) { int id = L(x, y); if (!id) continue; Pk &p = pk[id - 1]; int g = I(x, y); p.n++; p.sumg += g; p.x += (double)x * g; p.y += (double)y * g; p.xa = std::min(p.xa, x); p.xb = std::max(p.xb, x); p.ya = std::min(p.ya, y); p.yb = std::max(p.yb, y);
        for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) { int o = L(x + dx, y + dy); if (o && o != id && std::find(p.touch.begin(), p.touch.end(), o) == p.touch.end()) p.touch.push_back(o); } }
    long uni = 0;
    for (size_t i = 0; i < pk.size(); i++) { Pk &p = pk[i]; if (p.touch.size() > 3) exact = false; double x1 = p.x / p.sumg, y1 = p.y / p.sumg; int g1 = copy[p.pos];
        for (int o : p.touch) { Pk &q = pk[o - 1]; if (q.unr >= 0 || p.unr >= 0) continue; double x2 = q.x / q.sumg, y2 = q.y / q.sumg, d = hypot(x2 - x1, y2 - y1); int g2 = copy[q.pos]; bool un = true; if (d >= 2) for (int l = 1; l < d; l++) { double fx = x1 + l * (x2 - x1) / d, fy = y1 + l * (y2 - y1) / d; if (fabs(fx - round(fx)) < 1e-6 || fabs(fy - round(fy)) < 1e-6) exact = false; int g = I((int)fx, (int)fy) + D; double pr = g1 + l * (g2 - g1) / d; if (fabs(g - pr) < 1e-6) exact = false; if (g < pr || g < g1 || g < g2) { un = false; break; } }
            if (fabs(d - 2) < 1e-9) exact = false;
            if (!un) continue; p.unr = o; uni++; q.x += p.x; q.y += p.y; q.sumg += p.sumg; q.n += p.n; q.xa = std::min(q.xa, p.xa); q.xb = std::max(q.xb, p.xb); q.ya = std::min(q.ya, p.ya); q.yb = std::max(q.yb, p.yb); break; } }
    c.count("peaks", pk.size()); c.count("peaks united", uni);
    if (!exact) { c.count("ambiguous images, invariants only"); free(pix); return; }
    std::vector<char> used(n, 0); int cx0 = std::max(1, xmin), cy0 = std::max(1, ymin), cx1 = std::min(W - 1, xmax);
    for (auto &p : pk) { if (p.unr >= 0) continue; int nx = p.xb - p.xa + 1, ny = p.yb - p.ya + 1; if (p.n < tp.nnmin || p.n > tp.nnmax || nx < tp.nxmin || nx > tp.nxmax || ny < tp.nymin || ny > tp.nymax || p.sumg <= tp.sumg_min) { c.count("regions outside the limits"); continue; }
        bool edge = p.xa <= cx0 || p.ya <= cy0 || p.xb >= cx1 - 1 || p.yb >= std::min(H, ymax) - 1; if (cx1 - cx0 <= 30 && std::min(H, ymax) - cy0 <= 30) edge = false; /* small windows report everything */
        int hit = -1; for (int i = 0; i < n; i++) if (!used[i] && pix[i].n == p.n && pix[i].sumg == std::min(p.sumg, (long)INT_MAX) && pix[i].nx == nx && pix[i].ny == ny && fabs(pix[i].x - 0.5 - p.x / p.sumg) < 1e-7 * (1 + W) && fabs(pix[i].y - 0.5 - p.y / p.sumg) < 1e-7 * (1 + H)) { hit = i; break; }
        c.eval(); if (hit >= 0) used[hit] = 1; else if (!edge) c.fail("missed", "region of %d pixels, brightness %ld at (%g, %g) (extents %d..%d, %d..%d, %zu touching) not reported; %dx%d %s", p.n, p.sumg, p.x / p.sumg + .5, p.y / p.sumg + .5, p.xa, p.xb, p.ya, p.yb, p.touch.size(), W, H, image_kind(kind)); else c.count("regions at the window edge dropped");
        if (hit >= 0) { c.count("regions matched"); if (p.touch.empty()) c.count("isolated regions matched"); target &t = pix[hit]; if (!(t.x >= p.xa && t.x <= p.xb + 1 && t.y >= p.ya && t.y <= p.yb + 1)) c.fail("centre", "centre (%g, %g) outside extents %d..%d, %d..%d", t.x, t.y, p.xa, p.xb, p.ya, p.yb); } }
    for (int i = 0; i < n; i++) if (!used[i]) { c.fail("extra", "target n=%d sumg=%d nx=%d ny=%d (%g, %g) is no region of the image; %dx%d %s, threshold %d disc %d", pix[i].n, pix[i].sumg, pix[i].nx, pix[i].ny, pix[i].x, pix[i].y, W, H, image_kind(kind), T, D); break; }
    if (c.idx < 4) c.sample("%dx%d %s: %zu peaks, %ld united, %d targets", W, H, image_kind(kind), pk.size(), uni, n);
    free(pix);
}
