/* C12: threshold detection. Oracles: (A) reference growth (which pixels each peak
   collects, by graph reachability), (B) plain connected components for images whose
   blobs are isolated and detection is not limited by the discontinuity. */
#include "images.hpp"
const char *CHECK_RULE = "distinct detection runs (hash of image, window and limits)";
struct Blob { int n; long sumg; int  xa, xb, ya, yb; double x, y; bool cut; };
static bool lessb(const Blob &a, const Blob &b) { return std::make_tuple(a.ya, a.xa, a.yb, a.xb, a.n, a.sumg, a.x, a.y) < std::make_tuple(b.ya, b.xa, b.yb, b.xb, b.n, b.sumg, b.x, b.y); }
void run_case(Case &c) {
    Rng &r = c.r; Img m; bool huge = c.idx % 997 == 5;
    int W = huge ? r.i(1100, 1400) : r.p(0.15) ? r.pick({1, 2, 3, 5}) : r.pick({r.i(3, 12), r.i(6, 40), r.i(20, 130)}), H = huge ? r.i(1100, 1400) : r.p(0.15) ? r.pick({1, 2, 3, 5}) : r.pick({r.i(3, 12), r.i(6, 40), r.i(20, 130)});
    bool strip = c.idx % 499 == 6, bright = c.idx == 1012; if (strip) { W = r.i(32000, 70000); H = r.i(3, 7); if (r.p(0.5)) std::swap(W, H); c.count("strips longer than 32767 pixels", std::max(W, H) > 32768); } if (bright) { W = r.i(2950, 3100); H = r.i(2950, 3100); c.count("brightness sums beyond an int"); }
    m.make(W, H); int kind = bright ? 5 : strip ? r.pick({0, 1, 2, 3, 5}) : huge ? 5 : r.pick({r.i(0, 12), r.i(0, 12), 10}); draw_image(r, m, kind); if ((huge && r.p(0.5)) || (strip && r.p(0.2)) || bright) memset(m.d, 255, (size_t)W * H);
    std::vector<uc> copy(m.d, m.d + (size_t)W * H);
    target_par tp; memset(&tp, 0, sizeof tp); int cam = r.i(0, 3);
    for (int k = 0; k < 4; k++) tp.gvthres[k] = k == cam ? (r.p(0.05) ? r.pick({254, 255}) : r.pick({0, 1, 5, 10, 20, 30, 50, 100, r.i(0, 60), r.i(0, 255)})) : r.i(0, 255); if (bright) tp.gvthres[cam] = r.i(0, 200);
    tp.discont = r.pick({0, 5, 20, 100, 255, 500, r.i(0, 300)});
    bool open = r.p(0.5);
    tp.nnmin = open ? 1 : r.i(1, 8); tp.nnmax = open ? 100000000 : r.i(3, 200); tp.nxmin = open ? 1 : r.i(1, 4); tp.nxmax = open ? 100000 : r.i(2, 30); tp.nymin = open ? 1 : r.i(1, 4); tp.nymax = open ? 100000 : r.i(2, 30); tp.sumg_min = open ? 0 : r.i(0, 800); tp.cr_sz = 13;
    int xmin = 0, xmax = W, ymin = 0, ymax = H;
    if (bright) { tp.nnmin = tp.nxmin = tp.nymin = 1; tp.sumg_min = 0; tp.nnmax = tp.nxmax = tp.nymax = INT_MAX; }
    if (!bright && r.p(0.4)) { xmin = r.i(-3, W); xmax = r.i(xmin, W + 3); ymin = r.i(-3, H); ymax = r.i(ymin, H + 3); }
    mm_np mm; memset(&mm, 0, sizeof mm); control_par cp; memset(&cp, 0, sizeof cp); cp.imx = W; cp.imy = H; cp.num_cams = 4; cp.mm = &mm;
    target_par tp0 = tp; control_par cp0 = cp;
    target *pix = (target *)malloc(((size_t)W * H + 1) * sizeof(target));
    int n = targ_rec(m.d, &tp, xmin, xmax, ymin, ymax, &cp, cam, pix);
    c.eval(); Hash h; h.b(copy.data(), copy.size()); h.i(W); h.i(xmin); h.i(xmax); h.i(ymin); h.i(ymax); h.b(&tp, sizeof tp); c.distinct(h.h);
    if (memcmp(copy.data(), m.d, copy.size())) c.fail("image-changed", "detection changed the image (%dx%d)", W, H);
    if (memcmp(&tp, &tp0, sizeof tp) || memcmp(&cp, &cp0, sizeof cp)) c.fail("inputs-changed", "parameters changed");
    /* window clamped so that all 8 neighbours are in the image */
    int X0 = std::max(1, xmin), Y0 = std::max(1, ymin), X1 = std::min(W - 1, xmax), Y1 = std::min(H - 1, ymax);
    const int T = tp.gvthres[cam], D = tp.discont; auto I = [&](int x, int y) -> int { return copy[(size_t)y * W + x]; };
    std::vector<int> own((size_t)W * H, 0); auto live = [&](int x, int y) { return own[(size_t)y * W + x] ? 0 : I(x, y); };
    std::vector<Blob> ref; std::vector<std::pair<int, int>> st; int id = 0, found = 0; (void)found;
    for (int y = Y0; y < Y1; y++) for (int x = X0; x < X1; x++) {
        int g = live(x, y); if (g <= T) continue; bool peak = true;
        for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) if (live(x + dx, y + dy) > g) peak = false;
        if (!peak) continue;
        id++; Blob b = {0, 0, x, x, y, y, 0, 0, false}; long wx = 0, wy = 0; st.assign(1, {x, y}); own[(size_t)y * W + x] = id;
        while (!st.empty()) { auto [px, py] = st.back(); st.pop_back(); int v = I(px, py); b.n++; b.sumg += v; wx += (long)px * (v - T); wy += (long)py * (v - T);
            b.xa = std::min(b.xa, px); b.xb = std::max(b.xb, px); b.ya = std::min(b.ya, py); b.yb = std::max(b.yb, py);
            for (int k = 0; k < 4; k++) { int qx = px + (k == 0) - (k == 1), qy = py + (k == 2) - (k == 3); bool in = qx >= X0 && qx < X1 && qy >= Y0 && qy < Y1;
                if (!in) { if (qx >= 0 && qy >= 0 && qx < W && qy < H && I(qx, qy) > T && I(qx, qy) <= v + D) b.cut = true; continue; }
                int q = live(qx, qy); if (q <= T || q > v + D) continue; int mx = std::max(std::max(I(qx - 1, qy), I(qx + 1, qy)), std::max(I(qx, qy - 1), I(qx, qy + 1))); if (mx > v + D) continue;
                own[(size_t)qy * W + qx] = id; st.push_back({qx, qy}); } }
        double sw = b.sumg - (double)b.n * T; b.x = wx / sw + 0.5; b.y = wy / sw + 0.5; b.sumg = std::min(b.sumg, (long)INT_MAX); /* what the result can hold */
        int nx = b.xb - b.xa + 1, ny = b.yb - b.ya + 1;
        if (b.n < tp.nnmin || b.n > tp.nnmax || nx < tp.nxmin || nx > tp.nxmax || ny < tp.nymin || ny > tp.nymax || b.sumg <= tp.sumg_min) { c.count("blobs outside the limits"); continue; }
        ref.push_back(b); }
    c.count("blobs in reference", ref.size());
    if (ref.empty()) { c.count("windows without a blob");
        if (n != 1 || pix[0].n != 1 || pix[0].nx != 1 || pix[0].ny != 1 || pix[0].sumg != 1 || pix[0].x != 1 || pix[0].y != 1 || pix[0].tnr != -1 || pix[0].pnr != 1) c.fail("marker", "no blob qualifies, reported %d, first n=%d sumg=%d x=%g y=%g pnr=%d (%dx%d %s)", n, pix[0].n, pix[0].sumg, pix[0].x, pix[0].y, pix[0].pnr, W, H, image_kind(kind)); }
    else {
        for (int i = 0; i < n; i++) if (pix[i].pnr != i || pix[i].tnr != -1) { c.fail("marks", "target %d has number %d and correspondence %d", i, pix[i].pnr, pix[i].tnr); break; }
        int cut = 0; std::vector<char> used(n, 0); std::map<std::tuple<int, int, int, int>, std::vector<int>> idx; for (int i = 0; i < n; i++) idx[{pix[i].n, pix[i].sumg, pix[i].nx, pix[i].ny}].push_back(i);
        int miss = 0; const Blob *mb = 0;
        for (auto &b : ref) { int hit = -1; for (int i : idx[{b.n, b.sumg, b.xb - b.xa + 1, b.yb - b.ya + 1}]) if (!used[i] && fabs(pix[i].x - b.x) < 1e-7 * (1 + W) && fabs(pix[i].y - b.y) < 1e-7 * (1 + H)) { hit = i; break; }
            if (hit >= 0) { used[hit] = 1; if (b.cut) cut++; } else if (!b.cut) { miss++; mb = &b; } }
        int extra = -1; for (int i = 0; i < n; i++) if (!used[i]) extra = i;
        if (miss) c.fail("missed", "%d of %zu blobs not reported exactly, e.g. n=%d sumg=%ld at (%g,%g) extents %d..%d x %d..%d; %d reported, image %dx%d %s, threshold %d disc %d", miss, ref.size(), mb->n, mb->sumg, mb->x, mb->y, mb->xa, mb->xb, mb->ya, mb->yb, n, W, H, image_kind(kind), T, D);
        if (extra >= 0) c.fail("extra", "target n=%d sumg=%d nx=%d ny=%d (%g,%g) is no qualifying blob; image %dx%d %s, threshold %d disc %d", pix[extra].n, pix[extra].sumg, pix[extra].nx, pix[extra].ny, pix[extra].x, pix[extra].y, W, H, image_kind(kind), T, D);
        if (cut) { c.count("blobs cut off by the window reported", cut); c.fail("cut-off-reported", "%d blobs that continue past the edge of the search window are reported with the part inside it", cut); }
    }
    /* B: isolated blobs, independent of peaks and growth */
    if (D >= 255 && X1 > X0 && Y1 > Y0) {
        std::vector<int> lab((size_t)W * H, 0); int nl = 0; bool iso = true; std::vector<Blob> cc;
        for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { if (I(x, y) <= T || lab[(size_t)y * W + x]) continue; nl++; Blob b = {0, 0, x, x, y, y, 0, 0, false}; st.assign(1, {x, y}); lab[(size_t)y * W + x] = nl; double sx = 0, sy = 0, sw = 0;
            while (!st.empty()) { auto [px, py] = st.back(); st.pop_back(); int v = I(px, py); b.n++; b.sumg += v; sw += v - T; sx += (px + 0.5) * (v - T); sy += (py + 0.5) * (v - T); b.xa = std::min(b.xa, px); b.xb = std::max(b.xb, px); b.ya = std::min(b.ya, py); b.yb = std::max(b.yb, py); if (px < X0 || py < Y0 || px >= X1 || py >= Y1) b.cut = true;
                for (int k = 0; k < 4; k++) { int qx = px + (k == 0) - (k == 1), qy = py + (k == 2) - (k == 3); if (qx < 0 || qy < 0 || qx >= W || qy >= H || I(qx, qy) <= T || lab[(size_t)qy * W + qx]) continue; lab[(size_t)qy * W + qx] = nl; st.push_back({qx, qy}); } }
            b.x = sx / sw; b.y = sy / sw; b.sumg = std::min(b.sumg, (long)INT_MAX); cc.push_back(b); }
        for (int y = 1; y < H; y++) for (int x = 0; x < W; x++) { int a = lab[(size_t)y * W + x]; if (!a) continue; for (int dx = -1; dx <= 1; dx += 2) if (x + dx >= 0 && x + dx < W) { int b = lab[(size_t)(y - 1) * W + x + dx]; if (b && b != a) iso = false; } }
        if (iso) for (auto &b : cc) { if (b.cut) continue; int nx = b.xb - b.xa + 1, ny = b.yb - b.ya + 1; if (b.n < tp.nnmin || b.n > tp.nnmax || nx < tp.nxmin || nx > tp.nxmax || ny < tp.nymin || ny > tp.nymax || b.sumg <= tp.sumg_min) continue;
            int hits = 0; for (int i = 0; i < n; i++) if (pix[i].n == b.n && pix[i].sumg == b.sumg && pix[i].nx == nx && pix[i].ny == ny && fabs(pix[i].x - b.x) < 1e-7 * (1 + W) && fabs(pix[i].y - b.y) < 1e-7 * (1 + H)) hits++; c.eval(); c.count("isolated blobs");
            if (hits != 1) c.fail("isolated", "isolated blob of %d pixels at (%g,%g) reported %d times", b.n, b.x, b.y, hits); }
    }
    if (c.idx < 4) c.sample("%dx%d %s, threshold %d, discontinuity %d: %d targets", W, H, image_kind(kind), T, D, n);
    free(pix);
}
