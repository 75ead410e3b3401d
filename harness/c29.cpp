/* C29: every stage run twice in one process, in another order, with the heap and the stack left in another state;
   its results have to be the same, entirely initialised, and its inputs unchanged. */
#include <malloc.h>
#include "chain.hpp"
const char *CHECK_RULE = "distinct results of stages of the chain, each obtained twice";
static __attribute__((noinline)) void dirty_stack(int v, int depth) { volatile char b[4096]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v; if (depth > 0) dirty_stack(v, depth - 1); b[0] = b[1]; }
static void dirty_heap(Rng r, int v) { std::vector<void *> p; for (int i = 0; i < 60; i++) { size_t n = r.pick({24, 40, 72, 200, 600, 2000, 9000, 60000}); void *q = malloc(n); memset(q, v, n); p.push_back(q); } for (void *q : p) free(q); mallopt(M_PERTURB, v); }
void run_case(Case &c) {
    Rng &r = c.r; int n = r.i(1, 4); struct J { int k; uint64_t seed; Dig a, b; StageOpt o; }; std::vector<J> J_; for (int i = 0; i < n; i++) { J j; j.k = pick_stage(r, false); j.seed = r.next(); j.o.hostile = r.p(0.15); J_.push_back(j); }
    for (auto &j : J_) { int v = r.i(0, 255); dirty_heap(Rng(r.next()), v); dirty_stack(v, 20); STAGES[j.k].fn(Rng(j.seed), j.a, j.o); }
    r.shuffle(J_);
    for (auto &j : J_) { int v = r.pick({0, 255, r.i(0, 255)}); dirty_heap(Rng(r.next()), v); dirty_stack(r.i(0, 255), 20); STAGES[j.k].fn(Rng(j.seed), j.b, j.o); }
    for (auto &j : J_) { const char *nm = STAGES[j.k].name; c.eval(std::max(1L, j.a.items)); c.count(nm); c.distinct(j.a.h.h); 
        if (j.a.bad_key.size()) c.fail((j.a.bad_key + ":" + nm).c_str(), "%s", j.a.bad.c_str()); else if (j.b.bad_key.size()) c.fail((j.b.bad_key + ":" + nm).c_str(), "%s (second time)", j.b.bad.c_str());
        else if (j.a.h.h != j.b.h.h) { std::string w; for (size_t i = 0; i < j.a.marks.size() && i < j.b.marks.size(); i++) if (j.a.marks[i].second != j.b.marks[i].second) { w = j.a.marks[i].first; break; } c.fail((std::string("not-repeatable:") + nm).c_str(), "the same inputs gave other results the second time%s%s", w.size() ? ", first in " : "", w.c_str()); } }
}
