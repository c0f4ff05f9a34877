#include "symx.h"
#include <Pothos/Util/SpinLock.hpp>
#include <Pothos/Util/SpinLockRW.hpp>
#include <mutex>
#include <thread>
using Pothos::Util::SpinLock; using Pothos::Util::SpinLockRW;
// ---- exclusive lock: two threads, each entering up to n times by lock() or try_lock()
static SpinLock *L; static int inside; static unsigned data, total; static int entered;
static void critical() { sx_assert(inside == 0, "two threads inside the exclusive section"); inside = 1; unsigned v = sx_u8("value"), d = data; __atomic_add_fetch(&total, v, __ATOMIC_RELAXED); sx_sched(); data = d + v; sx_assert(inside == 1, "exclusive section was entered by someone else"); inside = 0; }
static void excl(bool tryIt) { if (tryIt) { if (!L->try_lock()) { sx_cover("try_lock_refused"); return; } } else L->lock(); critical(); __atomic_add_fetch(&entered, 1, __ATOMIC_RELAXED); L->unlock(); }
template <int N> static void spinRun() {
    L = new SpinLock(); inside = data = total = entered = 0; bool t1 = sx_pick("try1", 0, 1), t2 = sx_pick("try2", 0, 1);
    std::thread a([=] { for (int i = 0; i < N; i++) excl(t1 && i == 0); }), b([=] { for (int i = 0; i < N; i++) excl(t2 && i == N - 1); });
    a.join(); b.join();
    sx_assert(data == total, "an update made inside the exclusive section was lost");
    if (!t1 && !t2) sx_assert(entered == 2 * N, "every lock() must be granted eventually");
    sx_assert(L->try_lock(), "the lock is free once every holder has released it"); sx_assert(!L->try_lock(), "a held lock cannot be taken again"); L->unlock(); sx_assert(L->try_lock(), "unlock frees the lock"); sx_cover("end");
}
SX_HARNESS(h_spin) { spinRun<SX_DEEP ? 2 : 1>(); }
SX_HARNESS(h_spin3) { L = new SpinLock(); inside = data = total = entered = 0; std::thread a([] { excl(false); }), b([] { excl(false); }), c([] { excl(true); }); a.join(); b.join(); c.join(); sx_assert(data == total && entered >= 2, "an update made inside the exclusive section was lost"); sx_cover("end"); }
// ---- reader/writer lock
static SpinLockRW *R; static int readers, writers; static unsigned shared1, shared2, wsum; static int nw;
static void wr(bool tryIt) { if (tryIt) { if (!R->try_lock()) { sx_cover("try_write_refused"); return; } } else R->lock();
    __atomic_add_fetch(&writers, 1, __ATOMIC_RELAXED); sx_assert(__atomic_load_n(&readers, __ATOMIC_RELAXED) == 0 && __atomic_load_n(&writers, __ATOMIC_RELAXED) == 1, "a writer shares the lock");
    unsigned v = sx_u8("value"); __atomic_add_fetch(&wsum, v, __ATOMIC_RELAXED); __atomic_add_fetch(&nw, 1, __ATOMIC_RELAXED); shared1 += v; shared2 += v; __atomic_sub_fetch(&writers, 1, __ATOMIC_RELAXED); R->unlock(); }
static void rd(bool tryIt) { if (tryIt) { if (!R->try_lock_shared()) { sx_cover("try_read_refused"); return; } } else R->lock_shared();
    __atomic_add_fetch(&readers, 1, __ATOMIC_RELAXED); sx_assert(__atomic_load_n(&writers, __ATOMIC_RELAXED) == 0, "a reader and a writer hold the lock together");
    if (__atomic_load_n(&readers, __ATOMIC_RELAXED) == 2) sx_cover("two_readers");
    sx_assert(shared1 == shared2, "a reader sees a half-done write"); __atomic_sub_fetch(&readers, 1, __ATOMIC_RELAXED); R->unlock_shared(); }
static void rwRun(int kinds[3], int n) {
    R = new SpinLockRW(); readers = writers = shared1 = shared2 = wsum = nw = 0; std::thread t[3];
    for (int i = 0; i < n; i++) { int k = kinds[i]; t[i] = std::thread([k] { switch (k) { case 0: wr(false); break; case 1: rd(false); break; case 2: wr(true); break; case 3: rd(true); break; case 4: rd(false); wr(false); break; case 5: wr(false); rd(false); break; } }); }
    for (int i = 0; i < n; i++) t[i].join();
    int w = 0, tr = 0; for (int i = 0; i < n; i++) { w += kinds[i] == 0 || kinds[i] >= 4; tr += kinds[i] == 2; }
    sx_assert(shared1 == shared2 && shared1 == wsum && nw >= w && nw <= w + tr, "every writer's update is kept");
    sx_assert(R->try_lock(), "the lock is free once every holder has released it"); sx_assert(!R->try_lock_shared() && !R->try_lock(), "a writer excludes everyone"); R->unlock();
    sx_assert(R->try_lock_shared() && R->try_lock_shared(), "readers share"); sx_assert(!R->try_lock(), "readers exclude a writer"); R->unlock_shared(); sx_assert(!R->try_lock(), "one remaining reader still excludes a writer"); R->unlock_shared(); sx_assert(R->try_lock(), "the lock is free after the last reader left"); R->unlock(); sx_cover("end");
}
SX_HARNESS(h_rw2) { int k[3]; k[0] = sx_pick("k0", 0, 5); k[1] = sx_pick("k1", 0, 5); rwRun(k, 2); }
SX_HARNESS(h_rw3) { int k[3]; for (int i = 0; i < 3; i++) k[i] = sx_pick("k", 0, SX_DEEP ? 3 : 1); rwRun(k, 3); }
SX_HARNESS(h_rw_guard) { R = new SpinLockRW(); { SpinLockRW::SharedLock g(*R); sx_assert(!R->try_lock(), "the shared guard holds the lock"); sx_assert(R->try_lock_shared(), "the shared guard admits other readers"); R->unlock_shared(); } sx_assert(R->try_lock(), "the shared guard releases on scope exit");
    unsigned n = sx_pick("n", 1, 5); R->unlock(); for (unsigned i = 0; i < n; i++) R->lock_shared(); for (unsigned i = 0; i < n; i++) { sx_assert(!R->try_lock(), "a remaining reader excludes a writer"); R->unlock_shared(); } sx_assert(R->try_lock(), "free after all readers left"); sx_cover("end"); }
