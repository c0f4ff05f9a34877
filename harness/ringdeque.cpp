#include "symx.h"
#include <Pothos/Util/RingDeque.hpp>
#include <utility>
// element type that counts live instances and detects operations on dead ones
static int gLive = 0;
struct Elem {
    uint8_t v; uint32_t magic;
    Elem(uint8_t x = 0) : v(x), magic(0xA11CE) { gLive++; }
    Elem(const Elem &o) : v(o.v), magic(0xA11CE) { sx_assert(o.magic == 0xA11CE, "copy from a dead element"); gLive++; }
    Elem(Elem &&o) : v(o.v), magic(0xA11CE) { sx_assert(o.magic == 0xA11CE, "move from a dead element"); gLive++; }
    Elem &operator=(const Elem &o) { sx_assert(o.magic == 0xA11CE && magic == 0xA11CE, "assign with a dead element"); v = o.v; return *this; }
    ~Elem() { sx_assert(magic == 0xA11CE, "double destruction of an element"); magic = 0xDEAD; gLive--; }
};
typedef Pothos::Util::RingDeque<Elem> Q;
struct Model { uint8_t d[32]; unsigned n; Model() : n(0) {}
    void pb(uint8_t x) { d[n++] = x; } void pf(uint8_t x) { for (unsigned i = n; i > 0; i--) d[i] = d[i - 1]; d[0] = x; n++; }
    void popf() { for (unsigned i = 0; i + 1 < n; i++) d[i] = d[i + 1]; n--; } void popb() { n--; } };
static void same(const Q &q, const Model &m, bool sym = false) {
    sx_assert(q.size() == m.n, "size equals the number of stored elements");
    sx_assert(q.empty() == (m.n == 0), "empty() agrees with size");
    sx_assert(q.size() <= q.capacity(), "size never exceeds capacity");
    sx_assert(q.full() == (q.size() == q.capacity()), "full() agrees with capacity");
    for (unsigned i = 0; i < m.n; i++) { sx_assert(q[i].magic == 0xA11CE, "indexed element is alive"); sx_assert(q[i].v == m.d[i], "element at index is the one stored there"); }
    if (sym && m.n) { size_t k = sx_range("idx", 0, m.n - 1); sx_assert(q[k].v == m.d[k], "indexing agrees with insertion order at every index"); }
    if (m.n) { sx_assert(q.front().v == m.d[0], "front is the oldest at the front"); sx_assert(q.back().v == m.d[m.n - 1], "back is the newest at the back"); }
}

static void push(Q &q, Model &m, bool back, bool emplace) {
    if (q.full()) { sx_cover("full"); return; }     // pushing onto a full deque is outside the contract
    uint8_t x = sx_u8("x");
    if (emplace) { Elem &e = back ? q.emplace_back(x) : q.emplace_front(x); sx_assert(e.v == x && &e == (back ? &q.back() : &q.front()), "emplace returns the new element"); }
    else if (back) q.push_back(Elem(x)); else q.push_front(Elem(x));
    if (back) m.pb(x); else m.pf(x);
}
static void step(Q &q, Model &m, int nops) {
    switch (sx_pick("op", 0, nops)) {
    case 0: push(q, m, true, false); break;
    case 1: push(q, m, false, false); break;
    case 2: if (m.n) { q.pop_front(); m.popf(); } break;
    case 3: if (m.n) { q.pop_back(); m.popb(); } break;
    case 4: push(q, m, true, true); break;
    case 5: push(q, m, false, true); break;
    case 6: q.clear(); m.n = 0; break;
    case 7: { size_t c = sx_pick("cap2", 1, 9), old = q.capacity(); q.set_capacity(c); if (m.n <= c) sx_assert(q.capacity() == c, "capacity becomes what was asked for"); else sx_assert(q.capacity() == old, "a request below the element count changes nothing"); break; }
    case 8: { Q c(q); same(c, m); c.clear(); same(q, m); break; }
    case 9: { Q c(2); c.push_back(Elem(9)); c = q; same(c, m); sx_assert(c.capacity() == q.capacity(), "copy has the capacity of the source"); if (!c.full()) { c.push_front(Elem(1)); } same(q, m); break; }
    case 10: { size_t cap = q.capacity(); Q c(std::move(q)); same(c, m); Q d(1); d.push_back(Elem(3)); d = std::move(c); same(d, m); sx_assert(d.capacity() == cap, "move keeps the capacity"); q = d; break; }
    case 11: if (m.n) { uint8_t x = sx_u8("x"); size_t k = sx_range("widx", 0, m.n - 1); q[k] = Elem(x); m.d[k] = x; } break;
    case 12: { Q &self = q; q = self; sx_cover("self"); break; }
    }
    same(q, m);
}
static void run(unsigned caps, unsigned steps, int nops, bool sym) {
    {
        Model m; Q q(sx_pick("cap", 1, caps)); unsigned rot = sx_pick("rot", 0, caps + 1), n = sx_pick("n", 0, q.capacity());
        bool fwd = sx_pick("dir", 0, 1);
        for (unsigned i = 0; i < rot; i++) { if (fwd) { q.push_back(Elem(0)); q.pop_front(); } else { q.push_front(Elem(0)); q.pop_back(); } }
        for (unsigned i = 0; i < n; i++) { uint8_t x = sx_u8("init"); q.push_back(Elem(x)); m.pb(x); }
        same(q, m);
        for (unsigned i = 0; i < steps; i++) step(q, m, nops);
        if (m.n >= 3) sx_cover("grown"); same(q, m, sym);
        while (m.n) { sx_assert(q.front().v == m.d[0], "drain order"); q.pop_front(); m.popf(); }
        sx_assert(q.empty(), "empty after drain");
    }
    sx_assert(gLive == 0, "every element is destroyed exactly once"); sx_assert(sx_live() == 0, "storage released");
    sx_cover("end");
}
SX_HARNESS(h_ring_all) { run(SX_DEEP ? 5 : 4, SX_DEEP ? 3 : 2, 12, false); }
SX_HARNESS(h_ring_idx) { run(4, SX_DEEP ? 2 : 1, 12, true); }
SX_HARNESS(h_ring_long) { run(SX_DEEP ? 4 : 3, SX_DEEP ? 6 : 4, 3, false); }
