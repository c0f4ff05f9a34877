#include "symx.h"
#include <Pothos/Util/OrderedQueue.hpp>
#include <memory>
// Reference: tokens 0..cap-1 circulate; they become available in cyclic index order, each exactly once per push.
typedef Pothos::Util::OrderedQueue<uint16_t> Q;
struct Ref { unsigned cap, next, nq; bool in[8]; uint16_t val[8]; uint16_t q[8]; uint8_t qi[8]; bool out[8]; // out: index pushed and not popped
    void advance() { while (in[next]) { in[next] = false; qi[nq] = next; q[nq++] = val[next]; next = next + 1 == cap ? 0 : next + 1; } }
    void push(unsigned i, uint16_t v) { in[i] = true; out[i] = true; val[i] = v; advance(); }
    void pop() { out[qi[0]] = false; for (unsigned i = 1; i < nq; i++) { q[i - 1] = q[i]; qi[i - 1] = qi[i]; } nq--; } };
static void check(Q &q, Ref &r) { sx_assert(q.empty() == (r.nq == 0), "an element is available exactly when the next one in order has been pushed"); const Q &c = q; if (r.nq) { sx_assert(q.front() == r.q[0], "the front is the next element in cyclic order"); sx_assert(c.front() == r.q[0], "const front agrees"); } }
static void run(unsigned lo, unsigned caps, unsigned steps, bool sym) {
    Ref r = {}; r.cap = sx_pick("cap", lo, caps); Q q(r.cap); sx_assert(q.capacity() == r.cap, "capacity is what was asked for"); check(q, r);
    // arbitrary starting rotation
    unsigned rot = sx_pick("rot", 0, r.cap - 1); for (unsigned i = 0; i < rot; i++) { q.push(uint16_t(7), i); r.push(i, 7); q.pop(); r.pop(); }
    for (unsigned s = 0; s < steps; s++) {
        bool room = false; for (unsigned i = 0; i < r.cap; i++) room = room || !r.out[i];
        if (room && (!r.nq || sx_pick("push", 0, 1))) {
            unsigned i; uint16_t v = sx_u16("v");
            if (sym) { i = sx_range("index", 0, r.cap - 1); bool ok = true; for (unsigned k = 0; k < r.cap; k++) if (r.out[k]) ok = ok & (i != k); sx_assume(ok); q.push(v, i); i = sx_concrete(i); }
            else { i = sx_pick("index", 0, r.cap - 1); sx_assume(!r.out[i]); q.push(v, i); }
            if (i != r.next) sx_cover("out_of_order"); r.push(i, v);
        } else { q.pop(); r.pop(); sx_cover("pop"); }
        check(q, r);
    }
    if (sx_pick("copy", 0, 1)) { Q c(q); check(c, r); q = Q(1); q = std::move(c); check(q, r); }
    // push everything that is missing: all elements come out in cyclic order
    for (unsigned i = 0; i < r.cap; i++) if (!r.out[i]) { uint16_t v = sx_u16("last"); q.push(v, i); r.push(i, v); check(q, r); }
    unsigned n = 0; while (r.nq) { check(q, r); q.pop(); r.pop(); n++; } sx_assert(n == r.cap, "every pushed element becomes available exactly once"); check(q, r); sx_cover("end");
}
SX_HARNESS(h_oq_pick) { run(1, SX_DEEP ? 5 : 4, SX_DEEP ? 6 : 4, false); }
SX_HARNESS(h_oq_sym) { run(2, SX_DEEP ? 4 : 3, SX_DEEP ? 4 : 3, true); }
// elements that own something: nothing is lost or duplicated
SX_HARNESS(h_oq_own) {
    { Pothos::Util::OrderedQueue<std::shared_ptr<int>> q(3); std::shared_ptr<int> p[3]; for (int i = 0; i < 3; i++) p[i] = std::make_shared<int>(i);
      unsigned a = sx_pick("a", 0, 2), b = sx_pick("b", 0, 2); sx_assume(a != b); unsigned c = 3 - a - b; unsigned ord[3] = { a, b, c };
      for (unsigned i = 0; i < 3; i++) { q.push(p[ord[i]], ord[i]); sx_assert(p[ord[i]].use_count() == 2, "the queue holds exactly one copy of a pushed element"); }
      for (unsigned i = 0; i < 3; i++) { sx_assert(!q.empty() && q.front() == p[i], "elements leave in index order"); q.pop(); sx_assert(p[i].use_count() == 1, "a popped element is released"); }
      sx_assert(q.empty(), "empty after all were popped"); }
    sx_assert(sx_live() == 0, "nothing leaks"); sx_cover("end"); }
