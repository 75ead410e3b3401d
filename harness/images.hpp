/* Random grey images: noise, blobs, plateaus, touching and cut-off shapes. */
#ifndef VERIF_IMAGES_HPP
#define VERIF_IMAGES_HPP
#include "common.hpp"
typedef unsigned char uc;
struct Img { int w = 0, h = 0; uc *d = 0; Img() {} Img(const Img &) = delete; ~Img() { free(d); }
    void make(int W, int H, int v = 0) { free(d); w = W; h = H; d = (uc *)malloc((size_t)W * H); memset(d, v, (size_t)W * H); }
    uc &at(int x, int y) { return d[(size_t)y * w + x]; }
    void addmax(int x, int y, int v) { if (x >= 0 && y >= 0 && x < w && y < h && v > at(x, y)) at(x, y) = v > 255 ? 255 : v; } };
static inline const char *image_kind(int k) { static const char *n[] = {"noise", "gaussian blobs", "rectangles", "sparse points", "plateaus", "uniform", "gradient and blobs", "crosses and rings", "spiral", "smoothed noise", "separated blobs", "concentric", "dots"}; return n[k]; }
static inline void draw_image(Rng &r, Img &m, int kind) {
    int w = m.w, h = m.h; long A = (long)w * h;
    auto blob = [&](double cx, double cy, double s, double a) { int R = (int)(3 * s) + 1; for (int y = (int)cy - R; y <= cy + R; y++) for (int x = (int)cx - R; x <= cx + R; x++) m.addmax(x, y, (int)(a * exp(-((x - cx) * (x - cx) + (y - cy) * (y - cy)) / (2 * s * s)))); };
    int nb = std::max<long>(1, A / r.pick({40, 100, 300, 1000}));
    if (kind == 0) { int lv = r.pick({2, 4, 16, 256}); for (long i = 0; i < A; i++) m.d[i] = r.i(0, lv - 1) * (255 / (lv - 1)); }
    else if (kind == 1) { for (int i = 0; i < nb; i++) blob(r.u(0, w), r.u(0, h), r.u(0.4, 3), r.u(30, 320)); }
    else if (kind == 2) { for (int i = 0; i < nb; i++) { int x = r.i(-2, w), y = r.i(-2, h), a = r.i(1, 8), b = r.i(1, 8), v = r.i(5, 255); bool flat = r.p(0.5); for (int yy = y; yy < y + b; yy++) for (int xx = x; xx < x + a; xx++) if (xx >= 0 && yy >= 0 && xx < w && yy < h) m.at(xx, yy) = flat ? v : r.i(v / 2, v); } }
    else if (kind == 3) { for (int i = 0; i < nb; i++) m.addmax(r.i(0, w - 1), r.i(0, h - 1), r.i(1, 255)); }
    else if (kind == 4) { for (int i = 0; i < nb; i++) { int cx = r.i(0, w - 1), cy = r.i(0, h - 1), R = r.i(1, 9), v = r.pick({60, 120, 200, 255}); for (int y = cy - R; y <= cy + R; y++) for (int x = cx - R; x <= cx + R; x++) if (abs(x - cx) + abs(y - cy) <= R) m.addmax(x, y, v); } }
    else if (kind == 5) { memset(m.d, r.pick({0, 1, 100, 254, 255}), A); }
    else if (kind == 6) { for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) m.at(x, y) = (uc)(60.0 * x / w + 40.0 * y / h); for (int i = 0; i < nb; i++) blob(r.u(0, w), r.u(0, h), r.u(0.4, 2), r.u(60, 300)); }
    else if (kind == 7) { for (int i = 0; i < std::max(1, nb / 3); i++) { int cx = r.i(0, w - 1), cy = r.i(0, h - 1), R = r.i(1, 6), v = r.i(40, 255); bool ring = r.p(0.5); for (int k = -R; k <= R; k++) { m.addmax(cx + k, cy + (ring ? -R : 0), v); m.addmax(cx + (ring ? -R : 0), cy + k, v); if (ring) { m.addmax(cx + k, cy + R, v); m.addmax(cx + R, cy + k, v); } } } }
    else if (kind == 8) { int x0 = 0, y0 = 0, x1 = w - 1, y1 = h - 1, v = r.i(100, 255); while (x0 <= x1 && y0 <= y1) { for (int x = x0; x <= x1; x++) m.at(x, y0) = v; for (int y = y0; y <= y1; y++) m.at(x1, y) = v; for (int x = x0; x <= x1; x++) m.at(x, y1) = v; for (int y = y0 + 2; y <= y1; y++) m.at(x0, y) = v; x0 += 2; y0 += 2; x1 -= 2; y1 -= 2; } }
    else if (kind == 10) { int cell = r.i(5, 14); for (int y0 = 0; y0 < h; y0 += cell) for (int x0 = 0; x0 < w; x0 += cell) { if (r.p(0.3)) continue; int k = cell - 2, x = x0 + 1 + r.i(0, k - 1), y = y0 + 1 + r.i(0, k - 1), top = r.pick({255, 120, r.i(20, 255)}), steps = r.pick({1, 3, 10, 40}); bool flat = r.p(0.3);
        for (int i = 0; i < steps; i++) { m.addmax(x, y, flat ? top : r.i(top / 3, top)); int d = r.i(0, 3), nx = x + (d == 0) - (d == 1), ny = y + (d == 2) - (d == 3); if (nx > x0 && nx < x0 + cell - 1) x = nx; if (ny > y0 && ny < y0 + cell - 1) y = ny; } } }
    else if (kind == 11) { for (int y0 = 0; y0 < h; y0 += 3) { if (r.p(0.3)) continue; int R = r.i(2, 6), cy = y0 + R, x0 = 1; while (x0 < w && r.p(0.8)) { int Q = r.p(0.7) ? R : r.i(2, 6), cx = x0 + Q, v = r.i(30, 255), q = r.p(0.5) ? 0 : r.i(0, std::min(Q, R) - 2); for (int k = -Q; k <= Q; k++) m.addmax(cx + k, cy - R, v), m.addmax(cx + k, cy + R, v); for (int k = -R; k <= R; k++) m.addmax(cx - Q, cy + k, v), m.addmax(cx + Q, cy + k, v);
        if (r.p(0.8)) { int u = r.i(30, 255); for (int b = -q; b <= q; b++) for (int a = -q; a <= q; a++) m.addmax(cx + a, cy + b, u); } x0 = cx + Q + r.i(2, 4); } y0 += 2 * R; } }
    else if (kind == 12) { int px = r.i(2, 4), py = r.i(2, 4); double keep = r.pick({1.0, 0.9, 0.5}); bool flat = r.p(0.3); for (int y = 1; y < h; y += py) for (int x = 1; x < w; x += px) if (r.p(keep)) { m.at(x, y) = flat ? 200 : r.i(40, 255); if (px > 3 && r.p(0.2) && x + 1 < w) m.at(x + 1, y) = r.i(40, 255); } }
    else { for (int i = 0; i < 3 * nb; i++) blob(r.u(0, w), r.u(0, h), r.u(0.8, 4), r.u(20, 255)); for (long i = 0; i < A; i++) { int v = m.d[i] + r.i(-6, 6); m.d[i] = v < 0 ? 0 : v > 255 ? 255 : v; } }
}
#endif
