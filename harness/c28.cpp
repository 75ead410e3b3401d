/* C28: the stages and the whole chain from image to trajectory under AddressSanitizer and UndefinedBehaviorSanitizer,
   on data that reaches and exceeds the capacities. */
#include "chain.hpp"
const char *CHECK_RULE = "distinct results of stages of the chain, run under the sanitizers";
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static long heap_now() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }
/* bytes still allocated after a stage and all that it handed out are gone */
static long left_by(int k, uint64_t seed, const StageOpt &so) { long b = heap_now(); { Dig g; STAGES[k].fn(Rng(seed), g, so); } return heap_now() - b; }
void run_case(Case &c) {
    Rng &r = c.r; StageOpt so; so.hostile = r.p(0.8); int k = pick_stage(r, true); Dig g; uint64_t seed = r.next();
    int fds = count_fds(); long left = left_by(k, seed, so); if (count_fds() != fds) c.fail("file-kept-open", "%s: %d files are open afterwards, %d before", STAGES[k].name, count_fds(), fds); /* the first time of all, buffers of the C library may stay */
    STAGES[k].fn(Rng(seed), g, so);
    c.count("stages whose memory was accounted", heap_now() > 0);
    if (left > 0 && (left = left_by(k, seed, so)) > 0) c.fail("memory-kept", "%s: %ld bytes are kept after each run", STAGES[k].name, left);
    c.eval(std::max(1L, g.items)); c.count(STAGES[k].name); for (auto &x : g.seen) c.count(x.first.c_str(), x.second); c.distinct(g.h.h);
    if (g.bad_key == "capacity" || g.bad_key == "no-run" || g.bad_key == "no-result") c.fail(g.bad_key.c_str(), "%s: %s", STAGES[k].name, g.bad.c_str());
}
