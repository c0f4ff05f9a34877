#include "symx.h"
#include "Framework/ActorInterface.hpp"
#include <thread>
static ActorInterface *A; static int inside; static unsigned data, total; static int posted, seen; static int nacq;
static void enter() { sx_assert(inside == 0, "two threads have exclusive access to the actor at once"); inside = 1; }
static void leave() { sx_assert(inside == 1, "exclusive access was violated"); inside = 0; }
static bool workOnce(bool wait) { if (!A->workerThreadAcquire(wait)) { sx_cover("worker_idle"); return false; } enter(); seen = __atomic_load_n(&posted, __ATOMIC_RELAXED); { unsigned v = sx_u8("value"); __atomic_add_fetch(&total, v, __ATOMIC_RELAXED); data += v; } leave(); nacq++; A->workerThreadRelease(); sx_cover("worker_ran"); return true; }
static void external() { A->externalCallAcquire(); enter(); __atomic_add_fetch(&posted, 1, __ATOMIC_RELAXED); { unsigned v = sx_u8("value"); __atomic_add_fetch(&total, v, __ATOMIC_RELAXED); data += v; } leave(); A->externalCallRelease(); }
static void notify() { __atomic_add_fetch(&posted, 1, __ATOMIC_RELAXED); A->flagExternalChange(); }
static void fin() { // everything quiet: a change that the worker has not seen must still be pending, and is granted
    bool pending = seen < posted; bool got = A->workerThreadAcquire(sx_pick("finalwait", 0, 1)); if (pending) sx_assert(got, "a flagged change was lost: the worker is not scheduled for it");
    if (got) { A->workerThreadRelease(); } A->externalCallAcquire(); A->externalCallRelease(); sx_assert(A->workerThreadAcquire(false), "the end of an external call schedules the worker"); A->workerThreadRelease(); sx_assert(!A->workerThreadAcquire(false), "an idle actor is not scheduled"); sx_cover("end"); }
static void reset() { A = new ActorInterface(); inside = data = total = posted = seen = nacq = 0; }
// worker against external callers
SX_HARNESS(h_actor_call) { reset(); bool w = sx_pick("wait", 0, 1); bool pre = sx_pick("pre", 0, 1); if (pre) { posted++; A->flagInternalChange(); }
    std::thread t([=] { workOnce(w); workOnce(w); }), e(external); t.join(); e.join(); sx_assert(data == total, "an update made under exclusive access was lost"); fin(); }
SX_HARNESS(h_actor_calls) { reset(); posted++; A->flagInternalChange(); std::thread t([=] { workOnce(false); }), e(external), f(external); t.join(); e.join(); f.join(); sx_assert(data == total, "an update made under exclusive access was lost"); fin(); }
// worker against change notifications
SX_HARNESS(h_actor_flag) { reset(); bool w = sx_pick("wait", 0, 1); std::thread t([=] { workOnce(w); workOnce(w); }), n([] { notify(); notify(); }); t.join(); n.join(); fin(); }
SX_HARNESS(h_actor_mix) { reset(); bool w = sx_pick("wait", 0, 1); std::thread t([=] { workOnce(w); }), n(notify), e(external); t.join(); n.join(); e.join(); fin(); }
// two pool threads on the same actor
SX_HARNESS(h_actor_pool) { reset(); posted++; A->flagExternalChange(); std::thread t([=] { workOnce(false); workOnce(false); }), n([] { workOnce(true); notify(); }); t.join(); n.join(); sx_assert(data == total, "an update made under exclusive access was lost"); fin(); }
