#include "symx.h"
#include <Pothos/Framework/BufferManager.hpp>
#include <Pothos/Framework/BufferAccumulator.hpp>
#include <Pothos/Framework/BufferPool.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <memory>
#include <cstring>
using namespace Pothos;
// the plugin factories, reached without the registry
BufferManager::Sptr makeGenericBufferManager(void); BufferManager::Sptr makeCircularBufferManager(void);
/* ---------------------------------------------------------------- C06 managed buffers */
struct Mgr : BufferManager { int n; ManagedBuffer got[4]; int returned[4]; Mgr() : n(0) { memset(returned, 0, sizeof returned); } bool empty() const { return false; } void pop(const size_t) {} void push(const ManagedBuffer &b) { n++; returned[b.getSlabIndex()]++; sx_assert(!got[b.getSlabIndex()], "a buffer comes back only once"); got[b.getSlabIndex()] = b; } void drop() { setCallback([](const ManagedBuffer &) {}); for (auto &g : got) g.reset(); } };
// copies, moves, assignments and resets in any order: the buffer goes back exactly when the last handle goes
SX_HARNESS(h_mb_ops) { { auto m = std::make_shared<Mgr>(); { ManagedBuffer h[4]; int who[4] = { -1, -1, -1, -1 }; int cnt[2] = { 0, 0 };
      for (int k = 0; k < 2; k++) { h[k].reset(m, SharedBuffer::make(2), k); who[k] = k; cnt[k] = 1; }
      for (int s = 0; s < (SX_DEEP ? 4 : 3); s++) { int a = sx_pick("a", 0, 2), b = sx_pick("b", 0, 2); int before[2] = { m->returned[0], m->returned[1] };
        int gone = -1;
        switch (sx_pick("op", 0, 4)) {
        case 0: h[a] = h[b]; if (a != b) { if (who[a] >= 0) cnt[who[a]]--; gone = who[a]; who[a] = who[b]; if (who[a] >= 0) cnt[who[a]]++; } else sx_cover("self_assign"); break;
        case 1: if (a == b) break; h[a] = std::move(h[b]); if (who[a] >= 0) cnt[who[a]]--; gone = who[a]; who[a] = who[b]; who[b] = -1; break;
        case 2: h[a].reset(); if (who[a] >= 0) cnt[who[a]]--; gone = who[a]; who[a] = -1; break;
        case 3: { ManagedBuffer t(h[a]); sx_assert(t == h[a] && t.useCount() == (who[a] >= 0 ? size_t(cnt[who[a]] + 1) : 0), "a copy adds one reference"); break; }
        case 4: { ManagedBuffer t(std::move(h[a])); sx_assert(!h[a], "moved-from handle is null"); h[a] = std::move(t); break; }
        }
        for (int k = 0; k < 2; k++) { int exp = before[k] + ((gone == k && cnt[k] == 0) ? 1 : 0); sx_assert(m->returned[k] == exp, "a buffer is returned exactly when its last handle goes away"); if (exp != before[k]) { sx_cover("returned"); /* the manager now owns it alone: hand it out again */ } }
        for (int k = 0; k < 2; k++) if (m->got[k]) { sx_assert(m->got[k].unique(), "a returned buffer is referenced only by its manager"); int f = 3; for (int i = 0; i < 3; i++) if (who[i] < 0) f = i; h[f] = std::move(m->got[k]); who[f] = k; cnt[k] = 1; }
        for (int i = 0; i < 4; i++) { sx_assert(bool(h[i]) == (who[i] >= 0), "handle validity"); if (who[i] >= 0) { sx_assert(h[i].useCount() == size_t(cnt[who[i]]), "the reference count equals the number of handles"); sx_assert(h[i].unique() == (cnt[who[i]] == 1), "unique() means one handle"); sx_assert(h[i].getSlabIndex() == size_t(who[i]), "handle refers to its buffer"); } }
      }
      bool mgrGone = sx_pick("mgr_gone", 0, 1); int ret0 = m->n; std::weak_ptr<Mgr> w = m; if (mgrGone) { m.reset(); sx_assert(w.expired(), "handles do not keep the manager alive"); sx_cover("mgr_gone"); for (int i = 0; i < 4; i++) if (h[i]) { memset((void *)h[i].getBuffer().getAddress(), 1, 2); } }
      for (int i = 0; i < 4; i++) h[i].reset(); if (m) { sx_assert(m->n == ret0 + 2, "all buffers went back"); } }
      if (m) m.reset(); }
    sx_cover("end"); }
// with a delivery callback the buffer goes through it instead
SX_HARNESS(h_mb_callback) { { auto m = std::make_shared<Mgr>(); int calls = 0; ManagedBuffer got; m->setCallback([&](const ManagedBuffer &b) { calls++; got = b; }); { ManagedBuffer a; a.reset(m, SharedBuffer::make(2), 3); ManagedBuffer b(a); a.reset(); sx_assert(calls == 0, "not returned while a copy is held"); } sx_assert(calls == 1 && m->n == 0 && got.getSlabIndex() == 3, "returned through the callback exactly once"); m->setCallback(nullptr); got.reset(); sx_assert(m->n == 1, "returned directly without a callback"); m.reset(); }
    sx_cover("end"); }
#include <thread>
static int gRet; static unsigned gData, gWant; static ManagedBuffer *gGot;
struct CMgr : BufferManager { bool empty() const { return false; } void pop(const size_t) {} void push(const ManagedBuffer &b) { sx_assert(__atomic_add_fetch(&gRet, 1, __ATOMIC_RELAXED) == 1, "a buffer is returned exactly once"); unsigned s = 0; for (int i = 0; i < 2; i++) s += ((volatile uint8_t *)b.getBuffer().getAddress())[i]; gData = s; gGot = new ManagedBuffer(b); } };
// handles dropped by different threads: one return, after every holder's accesses
SX_HARNESS(h_mb_race) { gRet = 0; gWant = 0; auto m = std::make_shared<CMgr>(); { ManagedBuffer a; a.reset(m, SharedBuffer::make(2), 0); memset((void *)a.getBuffer().getAddress(), 0, 2); bool third = sx_pick("third", 0, 1); unsigned v0 = sx_u8("v0"), v1 = sx_u8("v1"); ManagedBuffer b(a), c; if (third) c = a; a.reset();
      std::thread t([h = std::move(c), v0]() mutable { if (h) { ((uint8_t *)h.getBuffer().getAddress())[0] = v0; ManagedBuffer d(h); h.reset(); d.reset(); } });
      { ((uint8_t *)b.getBuffer().getAddress())[1] = v1; ManagedBuffer d = std::move(b); d.reset(); } t.join();
      sx_assert(gRet == 1, "the buffer was returned"); sx_assert(gData == (third ? v0 : 0) + v1, "what holders wrote is visible to the manager when the buffer comes back"); sx_assert(gGot->unique(), "the manager is the only holder"); m->setCallback([](const ManagedBuffer &) {}); }
    m.reset(); delete gGot; sx_cover("end"); }
// the manager goes away while the last handle is dropped
SX_HARNESS(h_mb_race_mgr) { gRet = 0; gGot = nullptr; auto m = std::make_shared<CMgr>(); ManagedBuffer a; a.reset(m, SharedBuffer::make(2), 0); memset((void *)a.getBuffer().getAddress(), 3, 2); std::weak_ptr<CMgr> w = m; m->setCallback([](const ManagedBuffer &b) { sx_assert(__atomic_add_fetch(&gRet, 1, __ATOMIC_RELAXED) == 1, "a buffer is returned exactly once"); gGot = new ManagedBuffer(b); });
    std::thread t([h = std::move(a)]() mutable { h.reset(); }); m.reset(); t.join(); sx_assert(w.expired(), "the manager is gone"); if (gRet) { sx_cover("returned_first"); } else sx_cover("manager_first"); delete gGot; sx_cover("end"); }
/* ---------------------------------------------------------------- C07 buffer managers */
// A writer takes the front buffer, writes a running sequence, passes chunks on and holds them in any order.
enum { BS = 4, MAXB = 4 };
static uint8_t *gBase; static size_t gCirc;   // circular memory: 2*gCirc bytes, second half mirrors the first
static void put(size_t addr, uint8_t v) { *(uint8_t *)addr = v; if (gCirc) { size_t o = addr - (size_t)gBase; sx_assert(o < 2 * gCirc, "address lies within the double mapping"); gBase[o % gCirc] = v; gBase[o % gCirc + gCirc] = v; } }
static BufferManager::Sptr mk(bool circ, size_t nb, size_t bs) { BufferManagerArgs args; args.numBuffers = nb; args.bufferSize = bs; auto m = circ ? makeCircularBufferManager() : makeGenericBufferManager(); gCirc = 0;
    if (circ) { gCirc = nb * bs; m->setAllocateFunction([](const BufferManagerArgs &a) { gCirc = a.numBuffers * a.bufferSize; std::shared_ptr<uint8_t> p(new uint8_t[2 * gCirc], std::default_delete<uint8_t[]>()); gBase = p.get(); memset(gBase, 0, 2 * gCirc); SharedBuffer s((size_t)gBase, gCirc, p); s.setAlias((size_t)gBase + gCirc); return s; }); }
    m->init(args); return m; }
struct Held { BufferChunk c; uint8_t v[12]; unsigned n; };
static void intact(const Held *h, unsigned k) { for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < h[i].n; j++) sx_assert(((const uint8_t *)h[i].c.address)[j] == h[i].v[j], "data held downstream is never overwritten"); }
static void frontOk(BufferManager &m, size_t bs) { if (m.empty()) return; const BufferChunk &f = m.front(); sx_assert(bool(f) && f.length >= 1 && f.length <= bs, "an available front buffer has room and no more than the configured size"); sx_assert(f.address >= f.getBuffer().getAddress() && f.getEnd() <= f.getBuffer().getEnd(), "the front lies inside its buffer"); }
static void mgr(bool circ, unsigned steps) {
    { size_t nb = sx_pick("nb", 1, 3), bs = sx_pick("bs", 2, 4); auto m = mk(circ, nb, bs); frontOk(*m, bs); sx_assert(!m->empty() && m->front().length == bs, "a fresh manager offers a whole buffer"); Held h[4]; unsigned k = 0; uint8_t seq = 1;
      for (unsigned s = 0; s < steps; s++) {
        if (!m->empty() && k < 4 && (!k || sx_pick("produce", 0, 1))) { BufferChunk f = m->front(); size_t n = sx_pick("n", 1, bs); if (n > f.length) n = f.length; for (size_t i = 0; i < n; i++) put(f.address + i, seq + i); f.length = n; h[k].n = n; for (size_t i = 0; i < n; i++) h[k].v[i] = seq + i; h[k].c = std::move(f); k++; seq += n; m->pop(n); sx_cover("produced"); }
        else if (k) { unsigned i = sx_pick("drop", 0, k - 1); h[i] = h[k - 1]; h[k - 1].c.clear(); h[k - 1].n = 0; k--; sx_cover("dropped"); }
        intact(h, k); frontOk(*m, bs);
      }
      while (k) { h[--k].c.clear(); intact(h, k); } frontOk(*m, bs); sx_assert(!m->empty(), "once everything came back the manager has buffers again");
      // every buffer is available again: take all of them
      unsigned n = 0; while (!m->empty() && n < 8) { h[k].c = m->front(); h[k].n = 0; m->pop(h[k].c.length); if (k < 3) k++; n++; } sx_assert(n == nb, "no buffer was lost or duplicated");
      bool mg = sx_pick("mgr_first", 0, 1); if (mg) m.reset(); for (unsigned i = 0; i < 4; i++) h[i].c.clear(); m.reset(); }
    sx_cover("end"); }
SX_HARNESS(h_mgr_generic) { mgr(false, SX_DEEP ? 6 : 5); }
SX_HARNESS(h_mgr_circ) { mgr(true, SX_DEEP ? 6 : 5); }
// every amount at once: the offered buffer never overlaps bytes held downstream
static size_t norm(size_t a) { size_t o = a - (size_t)gBase; return o - (o >= gCirc ? gCirc : 0); }
static void mgrSym(bool circ, unsigned steps) { { const size_t nb = 2, bs = 8; auto m = mk(circ, nb, bs); BufferChunk h[3]; size_t len[3]; unsigned k = 0;
      for (unsigned s = 0; s < steps; s++) { if (!m->empty() && k < 3 && (!k || sx_pick("produce", 0, 1))) { BufferChunk f = m->front(); size_t n = sx_range("n", 1, bs); sx_assume(n <= f.length); len[k] = n; f.length = n; h[k++] = std::move(f); m->pop(n); sx_cover("produced"); }
        else if (k) { unsigned i = (unsigned)sx_pick("drop", 0, k - 1); k--; h[i] = h[k]; len[i] = len[k]; h[k].clear(); sx_cover("dropped"); }
        if (!m->empty()) { BufferChunk f = m->front(); sx_assert((f.length >= 1) & (f.length <= bs) & (f.address >= f.getBuffer().getAddress()) & (f.getEnd() <= f.getBuffer().getEnd()), "the front lies inside its buffer"); for (unsigned i = 0; i < k; i++) { size_t a = h[i].address, b = f.address; if (!circ) sx_assert((a + len[i] <= b) | (b + f.length <= a), "the offered buffer does not overlap bytes held downstream"); else { size_t x = norm(a), y = norm(b), d = y - x + (y < x ? gCirc : 0); sx_assert((d >= len[i]) & (d + f.length <= gCirc), "the offered buffer does not overlap bytes held downstream"); } } } }
      while (k) h[--k].clear(); sx_assert(!m->empty(), "once everything came back the manager has buffers again"); } sx_cover("end"); }
SX_HARNESS(h_mgr_generic_sym) { mgrSym(false, SX_DEEP ? 5 : 4); }
SX_HARNESS(h_mgr_circ_sym) { mgrSym(true, SX_DEEP ? 5 : 4); }
// the whole stream: manager -> accumulator -> forwarded copies; nothing that is still visible anywhere may be overwritten
static void stream(bool circ, unsigned steps) {
    { size_t nb = sx_pick("nb", 2, 3), bs = 4; auto m = mk(circ, nb, bs); { BufferAccumulator a; Held h[2]; unsigned k = 0; uint8_t st[64]; unsigned N = 0, Pn = 0;
      for (unsigned s = 0; s < steps; s++) {
        unsigned op = sx_pick("op", 0, 3);
        if (op == 0) { if (m->empty()) { sx_cover("starved"); continue; } BufferChunk f = m->front(); size_t n = sx_pick("n", 1, 2) * 2; if (n > f.length) n = f.length; for (size_t i = 0; i < n; i++) { put(f.address + i, N + i + 1); st[N + i] = N + i + 1; } f.length = n; N += n; m->pop(n); a.push(std::move(f)); }
        else if (op == 1) { size_t fl = a.front().length; if (!fl) continue; size_t n = sx_pick("pop", 0, 1) ? fl : 1; a.pop(n); Pn += n; }
        else if (op == 2) { if (k >= 2 || !a.front().length) continue; h[k].c = a.front(); h[k].n = a.front().length; for (unsigned i = 0; i < h[k].n; i++) h[k].v[i] = st[Pn + i]; k++; sx_cover("held"); }
        else { if (!k) continue; h[0] = h[k - 1]; h[k - 1].c.clear(); h[k - 1].n = 0; k--; }
        sx_assert(a.getTotalBytesAvailable() == N - Pn, "no byte is lost"); const BufferChunk &f = a.front(); for (size_t i = 0; i < f.length; i++) sx_assert(((const uint8_t *)f.address)[i] == st[Pn + i], "the stream arrives in order and unaltered"); intact(h, k); if (a.front().length > bs) sx_cover("amalgamated");
      }
      while (Pn != N) { const BufferChunk &f = a.front(); size_t n = f.length; for (size_t i = 0; i < n; i++) sx_assert(((const uint8_t *)f.address)[i] == st[Pn + i], "the rest of the stream arrives unaltered"); a.pop(n); Pn += n; intact(h, k); } a.clear(); for (unsigned i = 0; i < 2; i++) h[i].c.clear(); }
      sx_assert(!m->empty(), "all buffers came back"); BufferChunk t[4]; unsigned n = 0; while (!m->empty() && n < 4) { t[n] = m->front(); m->pop(m->front().length); n++; } sx_assert(n == nb, "no buffer was lost or duplicated on its way"); for (auto &x : t) x.clear(); }
    sx_cover("end"); }
SX_HARNESS(h_stream_generic) { stream(false, SX_DEEP ? 8 : 6); }
SX_HARNESS(h_stream_circ) { stream(true, SX_DEEP ? 8 : 6); }
