/* Particle scenes: detections of particles in all cameras, and the x-sorted
   corrected coordinates the matching works on. */
#ifndef VERIF_DETECT_HPP
#define VERIF_DETECT_HPP
#include "scene.hpp"

struct Detections {
    int nc = 0;
    frame frm;                                  /* only targets and num_targets are used */
    std::vector<target *> tg; std::vector<coord_2d *> crd; std::vector<int> num;
    std::vector<std::vector<int>> owner;        /* [cam][target index] -> particle or -1 */
    std::vector<std::vector<int>> at;           /* [particle][cam] -> target index or -1 */
    Detections() { memset(&frm, 0, sizeof frm); }
    Detections(const Detections &) = delete;
    ~Detections() { for (auto p : tg) free(p); for (auto p : crd) free(p); }
    /* index of the detection in the sorted list of its camera */
    std::vector<std::vector<int>> sorted_of;
    void finish(Scene &s) {                     /* corrected coordinates from the targets */
        crd.assign(nc, 0); sorted_of.assign(nc, {});
        for (int k = 0; k < nc; k++) {
            std::vector<coord_2d> v(num[k]);
            for (int i = 0; i < num[k]; i++) {
                double x, y; target &t = tg[k][i];
                pixel_to_metric(&x, &y, t.x, t.y, &s.cp);
                dist_to_flat(x, y, s.cal[k], &x, &y, 1e-8);
                v[i].x = x; v[i].y = y; v[i].pnr = i;
            }
            std::sort(v.begin(), v.end(), [](const coord_2d &a, const coord_2d &b) { return a.x < b.x; });
            crd[k] = (coord_2d *)malloc(num[k] * sizeof(coord_2d) + 1);
            sorted_of[k].assign(num[k], -1);
            for (int i = 0; i < num[k]; i++) { crd[k][i] = v[i]; sorted_of[k][v[i].pnr] = i; }
        }
        frm.targets = tg.data(); frm.num_targets = num.data(); frm.num_cams = nc;
    }
};
static inline void set_target(target &t, double x, double y, int n, int nx, int ny, int sumg) {
    memset(&t, 0, sizeof t); t.x = x; t.y = y; t.n = n; t.nx = nx; t.ny = ny; t.sumg = sumg; t.tnr = -1; }
#endif
