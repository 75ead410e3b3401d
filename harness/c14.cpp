/* C14: per-pixel image operations. Oracle: the documented arithmetic, pixel by pixel.
   All images are exact-size heap blocks, so any access outside is seen by ASan. */
#include "images.hpp"
const char *CHECK_RULE = "distinct operations (hash of operation, image and settings)";
static uc canary(size_t i) { return (uc)(37 + i * 11); }
void run_case(Case &c) {
    Rng &r = c.r; Img m; int W = r.pick({1, 2, 3, 4, r.i(1, 9), r.i(5, 40), r.i(20, 90)}), H = r.pick({1, 2, 3, 4, r.i(1, 9), r.i(5, 40), r.i(20, 90)});
    bool big = c.idx % 401 == 9; if (big) { W = r.i(300, 700); H = r.i(300, 600); }
    bool strip = c.idx % 401 == 10, bright = c.idx == 812; if (strip) { W = r.i(2000, 70000); H = r.i(1, 5); if (r.p(0.5)) std::swap(W, H); } if (bright) { W = r.i(2950, 3050); H = r.i(2950, 3050); c.count("sums beyond an int"); }
    m.make(W, H); int kind = bright ? 5 : strip ? r.pick({0, 3, 5}) : r.i(0, 9); draw_image(r, m, kind); if (bright || (strip && r.p(0.5))) memset(m.d, 255, (size_t)W * H); size_t A = (size_t)W * H; std::vector<uc> s(m.d, m.d + A);
    mm_np mm; memset(&mm, 0, sizeof mm); control_par cp; memset(&cp, 0, sizeof cp); cp.imx = W; cp.imy = H; cp.num_cams = r.i(1, 4); cp.mm = &mm; control_par cp0 = cp;
    uc *out = (uc *)malloc(A); for (size_t i = 0; i < A; i++) out[i] = canary(i);
    int op = bright ? 2 : strip && r.p(0.5) ? r.pick({2, 8}) : r.i(0, 8); Hash h; h.i(op); h.i(W); h.b(s.data(), A);
    auto lp_defined = [&](size_t i) { return i >= (size_t)W + 1 && i + W + 1 < A; };
    auto lp_ref = [&](const std::vector<uc> &a, size_t i) { int v = 0; for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) v += a[i + dy * W + dx]; return v / 9; };
    auto f3_ref = [&](const std::vector<uc> &a, size_t i, const filter_t f, double sum, double *lo) { double v = 0; int k = 0; for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++, k++) v += f[k / 3][k % 3] * a[i + dy * W + dx]; v /= sum; *lo = v; };
    /* defined value or range of the box blur */
    auto blur = [&](const std::vector<uc> &a, int span, std::vector<int> &lo, std::vector<int> &hi) { int sx = std::min(span, (W - 1) / 2), sy = std::min(span, (H - 1) / 2); lo.resize(A); hi.resize(A);
        std::vector<long> row(A), pre((size_t)W * (H + 1), 0), pr(W + 1, 0); for (int y = 0; y < H; y++) { for (int x = 0; x < W; x++) pr[x + 1] = pr[x] + a[(size_t)y * W + x]; for (int x = 0; x < W; x++) { int k = std::min(sx, std::min(x, W - 1 - x)); row[(size_t)y * W + x] = pr[x + k + 1] - pr[x - k]; pre[(size_t)(y + 1) * W + x] = pre[(size_t)y * W + x] + row[(size_t)y * W + x]; } }
        for (int y = 0; y < H; y++) { int k = std::min(sy, std::min(y, H - 1 - y)); for (int x = 0; x < W; x++) { int kx = std::min(sx, std::min(x, W - 1 - x)); long t = pre[(size_t)(y + k + 1) * W + x] - pre[(size_t)(y - k) * W + x];
            long cells = (2L * kx + 1) * (2L * k + 1); double mean = (double)t / cells; size_t i = (size_t)y * W + x; hi[i] = (int)(t / cells);
            /* partial filters are rescaled to the full width in whole numbers first */
            lo[i] = kx == sx ? hi[i] : (int)floor(mean - 1.0 / (2 * sx + 1) + 1e-12); if (lo[i] < 0) lo[i] = 0; } } };
    auto src_ok = [&](const char *what) { if (memcmp(s.data(), m.d, A)) c.fail("source-changed", "%s changed its source image (%dx%d)", what, W, H); if (memcmp(&cp, &cp0, sizeof cp)) c.fail("inputs-changed", "%s changed the parameters", what); };
    c.eval();
    auto pick_filter = [&](filter_t f) { int t = r.i(0, 5); double sum = 0; for (int i = 0; i < 9; i++) { f[i / 3][i % 3] = t == 0 ? 1 : t == 1 ? r.i(0, 9) : t == 2 ? r.i(-5, 9) : t == 3 ? r.i(0, 300) : t == 4 ? r.u(0, 1) : r.i(-2, 1) ; } if (t == 5) f[1][1] = r.i(2, 20); for (int i = 0; i < 9; i++) sum += f[i / 3][i % 3]; return sum; };
    auto check_f3 = [&](const std::vector<uc> &a, const uc *o, const filter_t f, double sum, const char *what) { for (size_t i = 0; i < A; i++) if (lp_defined(i)) { double v; f3_ref(a, i, f, sum, &v); double q = v < 8 ? 8 : v > 255 ? 255 : floor(v); bool amb = fabs(v - round(v)) < 1e-9; if (o[i] != (int)q && !(amb && abs(o[i] - (int)round(std::max(8.0, std::min(255.0, v)))) <= 1)) { c.fail(what, "pixel %zu of %dx%d is %d, expected %g", i, W, H, o[i], v); break; } } };
    switch (op) {
    case 0: { lowpass_3(m.d, out, &cp); c.count("lowpass"); src_ok("lowpass_3"); for (size_t i = 0; i < A; i++) { if (lp_defined(i)) { if (out[i] != lp_ref(s, i)) { c.fail("lowpass", "pixel %zu of %dx%d is %d, mean of its 3x3 pixels %d", i, W, H, out[i], lp_ref(s, i)); break; } } else if (out[i] != canary(i)) { c.fail("lowpass-edge", "pixel %zu outside the processed lines written (%dx%d)", i, W, H); break; } } break; }
    case 1: { filter_t f; double sum = pick_filter(f); filter_t f0; memcpy(f0, f, sizeof f); h.b(f, sizeof f); int ret = filter_3(m.d, out, f, &cp); c.count("3x3 filter"); src_ok("filter_3"); if (memcmp(f, f0, sizeof f)) c.fail("inputs-changed", "filter changed");
        if (sum == 0) { if (ret != 0) c.fail("filter-status", "filter with zero sum accepted"); for (size_t i = 0; i < A; i++) if (out[i] != canary(i)) { c.fail("filter-status", "rejected filter wrote the image"); break; } break; }
        if (fabs(sum) < 1e-6) break; if (ret != 1) c.fail("filter-status", "returned %d", ret); check_f3(s, out, f, sum, "filter"); for (size_t i = 0; i < A; i++) if (!lp_defined(i) && out[i] != canary(i)) { c.fail("filter-edge", "pixel %zu outside the processed lines written", i); break; } break; }
    case 2: { int span = r.pick({0, 1, 1, 2, 3, r.i(0, 12), r.i(0, 200)}); if (big) span = r.i(90, 250); if (strip) span = r.i(0, 40000); if (bright) span = r.i(1460, 1550); h.i(span); if (span > (std::min(W, H) - 1) / 2) c.count("blur wider than the image"); int ret = fast_box_blur(span, m.d, out, &cp); c.count("box blur"); src_ok("fast_box_blur"); if (ret != 1) c.fail("blur-status", "returned %d", ret);
        std::vector<int> lo, hi; blur(s, span, lo, hi); for (size_t i = 0; i < A; i++) if (out[i] < lo[i] || out[i] > hi[i]) { c.fail("blur", "span %d pixel (%zu,%zu) of %dx%d is %d, expected %d..%d", span, i % W, i / W, W, H, out[i], lo[i], hi[i]); break; } break; }
    case 3: { int sel = r.i(0, 2); h.i(sel); uc *w = (uc *)malloc(A); memcpy(w, s.data(), A); split(w, sel, &cp); c.count("field split"); int bad = -1;
        for (size_t i = 0; i < A && bad < 0; i++) { int y = i / W, x = i % W; if (sel == 0) { if (w[i] != s[i]) bad = i; } else if (y < H / 2) { if (w[i] != s[(size_t)(2 * y + (sel == 1)) * W + x]) bad = i; } else if (i >= A / 2 && !(H % 2 && y == H / 2 && i < A / 2)) { if (w[i] != 2) bad = i; } }
        if (bad >= 0) c.fail("split", "field %d, pixel %d of %dx%d is %d", sel, bad, W, H, w[bad]); free(w); break; }
    case 4: { Img b; b.make(W, H); draw_image(r, b, r.i(0, 9)); std::vector<uc> b0(b.d, b.d + A); int al = r.i(0, 2); uc *dst = al == 0 ? out : al == 1 ? m.d : b.d; subtract_img(m.d, b.d, dst, &cp); c.count("subtraction"); for (size_t i = 0; i < A; i++) { int e = std::max(0, (int)s[i] - b0[i]); if (dst[i] != e) { c.fail("subtract", "pixel %zu: %d - %d gives %d", i, s[i], b0[i], dst[i]); break; } } if (al == 0) { src_ok("subtract_img"); if (memcmp(b0.data(), b.d, A)) c.fail("source-changed", "subtract_img changed the second image"); } break; }
    case 5: { Img b; b.make(W, H); draw_image(r, b, r.i(0, 9)); for (size_t i = 0; i < A; i++) if (r.p(0.3)) b.d[i] = r.pick({0, 1, 255}); std::vector<uc> b0(b.d, b.d + A); bool in = r.p(0.3); uc *dst = in ? m.d : out; subtract_mask(m.d, b.d, dst, &cp); c.count("masking"); for (size_t i = 0; i < A; i++) { int e = b0[i] ? s[i] : 0; if (dst[i] != e) { c.fail("mask", "pixel %zu: %d with mask %d gives %d", i, s[i], b0[i], dst[i]); break; } } if (!in) src_ok("subtract_mask"); if (memcmp(b0.data(), b.d, A)) c.fail("source-changed", "subtract_mask changed the mask"); break; }
    case 6: { copy_images(m.d, out, &cp); c.count("copy"); src_ok("copy_images"); if (memcmp(out, s.data(), A)) c.fail("copy", "copy differs (%dx%d)", W, H); break; }
    default: {
        int span = strip ? r.i(0, 40000) : r.pick({0, 1, 2, r.i(0, 8), r.i(0, 60)}), hp = r.i(0, 2); cp.chfield = r.i(0, 2); cp0 = cp; h.i(span); h.i(hp); h.i(cp.chfield); filter_t f; double sum = 1; std::string fn = Scratch::path("filter.par"); int bad = 0;
        if (hp == 2) { sum = pick_filter(f); if (fabs(sum) < 1e-6) { f[1][1] += 3; sum += 3; } bad = r.p(0.3) ? r.i(1, 3) : 0; unlink(fn.c_str()); if (bad != 1) { FILE *o = fopen(fn.c_str(), "w"); int stop = bad == 2 ? r.i(0, 8) : 9; for (int i = 0; i < stop; i++) { if (bad == 3 && i == 4) fprintf(o, "x "); fprintf(o, "%.17g%c", f[i / 3][i % 3], i % 3 == 2 ? '\n' : ' '); } fclose(o); } h.i(bad); }
        int ret = foreign_call([&] { return prepare_image(m.d, out, span, hp, (char *)fn.c_str(), &cp); }); c.count("highpass"); src_ok("prepare_image");
        if (bad) { c.count("filter files rejected"); if (ret != 0) c.fail("prepare-status", "unusable filter file (%d) accepted", bad); break; }
        if (ret != 1) { c.fail("prepare-status", "returned %d", ret); break; }
        std::vector<int> lo, hi; blur(s, span, lo, hi); std::vector<uc> a(A), b(A), a2, b2; bool exact = true; for (size_t i = 0; i < A; i++) { a[i] = std::max(0, s[i] - hi[i]); b[i] = std::max(0, s[i] - lo[i]); if (a[i] != b[i]) exact = false; }
        /* values at partial filters may differ by one: take what the library's own blur gives */
        if (!exact) { std::vector<uc> t(A), src(s); fast_box_blur(span, src.data(), t.data(), &cp); for (size_t i = 0; i < A; i++) a[i] = std::max(0, (int)s[i] - t[i]); }
        std::vector<char> def(A, 1);
        if (cp.chfield) { a2 = a; for (int y = 0; y < H / 2; y++) for (int x = 0; x < W; x++) a2[(size_t)y * W + x] = a[(size_t)(2 * y + (cp.chfield == 1)) * W + x]; for (size_t i = A / 2; i < A; i++) a2[i] = 2; if (H % 2) for (int x = 0; x < W; x++) def[(size_t)(H / 2) * W + x] = 0; a = a2; }
        if (hp == 0) { for (size_t i = 0; i < A; i++) if (def[i] && out[i] != a[i]) { c.fail("highpass", "span %d field %d pixel (%zu,%zu) of %dx%d is %d, expected %d", span, cp.chfield, i % W, i / W, W, H, out[i], a[i]); break; } break; }
        if (cp.chfield && H % 2) { c.count("odd field images skipped"); break; }
        if (hp == 1) { for (size_t i = 0; i < A; i++) { int e = lp_defined(i) ? lp_ref(a, i) : a[i]; if (out[i] != e) { c.fail("highpass-lowpass", "pixel (%zu,%zu) of %dx%d is %d, expected %d", i % W, i / W, W, H, out[i], e); break; } } }
        else { check_f3(a, out, f, sum, "highpass-filter"); for (size_t i = 0; i < A; i++) if (!lp_defined(i) && out[i] != a[i]) { c.fail("highpass-filter", "edge pixel %zu of %dx%d is %d, expected %d", i, W, H, out[i], a[i]); break; } }
    } }
    c.distinct(h.h); if (c.idx < 4) c.sample("operation %d on %dx%d %s", op, W, H, image_kind(kind));
    free(out);
}
