// The pool of worker threads behind every block: lib/Framework/ThreadEnvironment.cpp.
#include "symx.h"
#include "Framework/ThreadEnvironment.hpp"
#include <thread>
#define LD(x) __atomic_load_n(&(x), __ATOMIC_RELAXED)
#define ST(x, v) __atomic_store_n(&(x), (v), __ATOMIC_RELAXED)
struct Job { int inside; unsigned data, total; unsigned runs; unsigned ran; unsigned tok; unsigned gone; unsigned idle; };
static Job J[3]; static unsigned nthr, maxthr; static int CAP;
static bool run(int k, bool wait) {
    Job &j = J[k]; sx_assert(!LD(j.gone), "a task runs after unregisterTask() returned");
    sx_assert(j.inside == 0, "two threads run the same task at once"); j.inside = 1; { unsigned v = 1; if (!j.runs) { v = sx_u8("value"); sx_assume(v != 0); } __atomic_add_fetch(&j.total, v, __ATOMIC_RELAXED); j.data += v; } // plain: the race detector checks that runs of one task are ordered
    unsigned now = __atomic_add_fetch(&nthr, 1, __ATOMIC_RELAXED); sx_assert(now <= maxthr, "more tasks run at once than the pool has threads");
    if (now > 1) sx_cover("parallel");
    sx_sched(); ST(j.runs, LD(j.runs) + 1); ST(j.ran, 1);
    bool did = LD(j.runs) <= (unsigned)CAP; __atomic_sub_fetch(&nthr, 1, __ATOMIC_RELAXED); j.inside = 0;
    if (!did) { // nothing left to do: an idle task waits for its wake (bounded, as every wait of an actor is)
        j.idle++; if (wait) sx_cover("waits"); sx_wait32(&j.tok, 1, j.idle < 14); ST(j.tok, 0); }
    return did;
}
static void reg(ThreadEnvironment &e, int k) { ST(J[k].gone, 0); e.registerTask(&J[k], [k](bool w) { return run(k, w); }, [k] { ST(J[k].tok, 1); }); }
static void unreg(ThreadEnvironment &e, int k) { e.unregisterTask(&J[k]); ST(J[k].gone, 1); sx_assert(J[k].inside == 0, "a task is still running when unregisterTask() returns"); sx_assert(J[k].data == LD(J[k].total), "an update made by a task is lost"); }
static void ranAgain(int k) { ST(J[k].ran, 0); ST(J[k].tok, 1); sx_wait32(&J[k].ran, 1, 0); }
static Pothos::ThreadPoolArgs args(int n) { Pothos::ThreadPoolArgs a(n); if (sx_pick("spin", 0, 1)) a.yieldMode = "SPIN"; return a; }
static void reset(int n, int cap) { for (auto &j : J) j = Job(); nthr = 0; CAP = cap; maxthr = n ? n : 3; }
// one task; run, stop, and possibly start again
SX_HARNESS(h_env_one) {
    int n = (int)sx_pick("numThreads", 0, 2); reset(n, 1); { ThreadEnvironment e(args(n)); reg(e, 0); if (sx_pick("await", 0, 1)) ranAgain(0);
    if (sx_pick("how", 0, 1)) { unreg(e, 0); if (sx_pick("again", 0, 1)) { reg(e, 0); ranAgain(0); unreg(e, 0); sx_cover("again"); } } }
    sx_assert(J[0].inside == 0, "a task is still running when the pool is destroyed"); sx_assert(J[0].data == J[0].total && J[0].data >= J[0].runs, "an update made by a task is lost"); J[0].gone = 1; sx_cover("end"); }
// two tasks: every task is served, one can leave while the other goes on
SX_HARNESS(h_env_two) {
    int n = (int)sx_pick("numThreads", 0, 2); reset(n, 1); { ThreadEnvironment e(args(n)); reg(e, 0); reg(e, 1); bool a = sx_pick("await", 0, 1); if (a) { ranAgain(0); ranAgain(1); }
    int k = (int)sx_pick("first", 0, 1); unreg(e, k); ranAgain(!k); sx_cover("other_runs"); if (sx_pick("rest", 0, 1)) unreg(e, !k); }
    for (int k = 0; k < 2; k++) { sx_assert(J[k].inside == 0, "a task is still running when the pool is destroyed"); sx_assert(J[k].data == J[k].total && J[0].data + J[1].data >= J[0].runs + J[1].runs, "an update made by a task is lost"); ST(J[k].gone, 1); } sx_cover("end"); }
// tasks come and go from two threads
SX_HARNESS(h_env_conc) {
    int n = (int)sx_pick("numThreads", 0, 2); reset(n, 0); { ThreadEnvironment e(args(n)); std::thread t([&] { reg(e, 0); unreg(e, 0); }); reg(e, 1); unreg(e, 1); t.join(); } sx_cover("end"); }
