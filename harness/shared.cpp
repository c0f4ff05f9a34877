#include "symx.h"
#include <Pothos/Framework/SharedBuffer.hpp>
#include <Pothos/Framework/BufferChunk.hpp>
#include <Pothos/Framework/BufferPool.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <memory>
#include <cstring>
using namespace Pothos;
/* C08: sub-buffers, for every address and length */
static std::shared_ptr<void> box() { return std::make_shared<int>(1); }
static bool sub(SharedBuffer &out, size_t a, size_t l, const SharedBuffer &p) { try { SharedBuffer s(a, l, p); out = s; return true; } catch (const SharedBufferError &) { return false; } }
SX_HARNESS(h_sb_sub) { { size_t A = sx_u64("A"), L = sx_u64("L"), a = sx_u64("a"), l = sx_u64("l"); sx_assume((A != 0) & (A + L >= A)); auto c = box(); SharedBuffer p(A, L, c), s; sx_assert((p.getAddress() == A) & (p.getLength() == L) & (p.getEnd() == A + L), "a buffer is the range it was made with"); sx_assert(p.getAlias() == 0 && p.getAliasOffset() == 0, "no alias");
      bool ok = sub(s, a, l, p); bool inside = (a >= A) & (a <= A + L) & (l <= A + L - a);
      if (ok) { sx_assert(inside, "an accepted sub-buffer lies inside its parent"); sx_assert((s.getAddress() == a) & (s.getLength() == l) & (s.getEnd() == a + l), "the sub-buffer is the requested range"); sx_assert(s == p && s.getContainer() == p.getContainer(), "the sub-buffer shares the container"); sx_assert(s.useCount() == 3, "the sub-buffer holds a reference to the memory"); sx_assert(s.getAlias() == 0, "no alias"); sx_cover("accepted"); }
      else { sx_assert(!inside, "every range inside the parent is accepted"); sx_assert(p.useCount() == 2, "a refused sub-buffer holds nothing"); sx_cover("refused"); } }
    sx_cover("end"); }
SX_HARNESS(h_sb_circ) { { size_t A = sx_u64("A"), L = sx_u64("L"), a = sx_u64("a"), l = sx_u64("l"); sx_assume((A != 0) & (L < (1ull << 62)) & (A < (1ull << 62)) & (L != 0)); SharedBuffer p(A, L, box()), s; p.setAlias(A + L); sx_assert(p.getAliasOffset() == L, "alias offset");
      bool ok = sub(s, a, l, p); bool inside = (a >= A) & (a <= A + 2 * L) & (l <= A + 2 * L - a);
      if (ok) { sx_assert(inside, "an accepted sub-buffer of a circular buffer lies inside the double mapping"); sx_assert((s.getAddress() == a) & (s.getLength() == l), "the sub-buffer is the requested range"); sx_assert(s.getAlias() - s.getAddress() == L && s.getAliasOffset() == L, "the alias keeps its distance"); sx_cover("accepted"); }
      else { sx_assert(!inside, "every range inside the double mapping is accepted"); sx_cover("refused"); } }
    sx_cover("end"); }
SX_HARNESS(h_sb_nested) { { size_t A = sx_u64("A"), L = sx_u64("L"); sx_assume((A != 0) & (A + L >= A)); SharedBuffer p(A, L, box()), s, t; if (!sub(s, sx_u64("a"), sx_u64("l"), p)) return; if (!sub(t, sx_u64("a2"), sx_u64("l2"), s)) return; sx_assert((t.getAddress() >= A) & (t.getAddress() <= A + L) & (t.getLength() <= A + L - t.getAddress()), "a sub-buffer of a sub-buffer lies inside the original memory"); sx_assert((t.getAddress() >= s.getAddress()) & (t.getEnd() <= s.getEnd()), "and inside the first sub-buffer"); sx_cover("nested"); }
    sx_cover("end"); }
SX_HARNESS(h_sb_nested_circ) { { size_t A = sx_u64("A"), L = sx_u64("L"); sx_assume((A != 0) & (L < (1ull << 60)) & (A < (1ull << 60)) & (L != 0)); SharedBuffer p(A, L, box()), s, t; p.setAlias(A + L); if (!sub(s, sx_u64("a"), sx_u64("l"), p)) return; if (!sub(t, sx_u64("a2"), sx_u64("l2"), s)) return; bool in = (t.getAddress() >= A) & (t.getAddress() <= A + 2 * L) & (t.getLength() <= A + 2 * L - t.getAddress()); bool crossing = s.getEnd() > A + L; sx_assert(t.getAlias() - t.getAddress() == L && t.getAliasOffset() == L, "the alias of a nested sub-buffer keeps its distance");
      if (!crossing) { sx_assert(in, "a sub-buffer of a sub-buffer of a circular buffer lies inside the double mapping"); sx_cover("nested"); } else sx_assert(in, "a sub-buffer of a sub-buffer that crosses the wrap point lies inside the double mapping"); }
    sx_cover("end"); }
// memory allocated by the library: aligned, whole range usable, released with the last reference
SX_HARNESS(h_sb_make) { { size_t n = sx_pick("n", 0, SX_DEEP ? 64 : 20); SharedBuffer b = SharedBuffer::make(n, sx_pick("affinity", 0, 1) ? 0 : -1); sx_assert(b.getLength() == n && bool(b), "the buffer has the requested length"); sx_assert(b.getAddress() % 64 == 0, "buffers are aligned"); memset((void *)b.getAddress(), 0x5A, n); for (size_t i = 0; i < n; i++) sx_assert(((uint8_t *)b.getAddress())[i] == 0x5A, "every byte is usable"); SharedBuffer c(b), d(b.getAddress(), n / 2, b); sx_assert(b.useCount() == 3 && !b.unique(), "references are counted"); b = SharedBuffer(); c = SharedBuffer(); sx_assert(d.unique(), "the sub-buffer keeps the memory"); memset((void *)d.getAddress(), 1, d.getLength()); }
    sx_assert(sx_live() == 0, "the memory is released with the last reference"); sx_cover("end"); }
/* C09: the buffer pool */
SX_HARNESS(h_pool) { { BufferPool p; BufferChunk h[4]; uint8_t tag[4]; unsigned k = 0; size_t big = 0;
      for (unsigned s = 0; s < (SX_DEEP ? 6 : 5); s++) { unsigned op = sx_pick("op", 0, 2);
        if (op == 0 && k < 4) { size_t n; switch (sx_pick("size", 0, 3)) { case 0: n = 1; break; case 1: n = 8192; break; case 2: n = 8193; break; default: n = 8200; } const BufferChunk &r = p.get(n); sx_assert(r.length >= n && r.getEnd() <= r.getBuffer().getEnd() && r.address >= r.getBuffer().getAddress(), "a pool buffer is at least as large as asked for and inside its memory"); h[k] = r; for (unsigned i = 0; i < k; i++) sx_assert(h[i].getBuffer() != h[k].getBuffer(), "the pool never hands out a buffer that is still in use"); tag[k] = 1 + s; h[k].as<uint8_t *>()[0] = tag[k]; h[k].as<uint8_t *>()[n - 1] = tag[k]; k++; big = n > big ? n : big; sx_cover("got"); }
        else if (op == 1 && k) { unsigned i = sx_pick("drop", 0, k - 1); h[i] = h[k - 1]; tag[i] = tag[k - 1]; h[--k].clear(); sx_cover("dropped"); }
        else if (op == 2) { p.clear(); sx_cover("cleared"); }
        for (unsigned i = 0; i < k; i++) sx_assert(h[i].as<uint8_t *>()[0] == tag[i], "a buffer in use is not touched by the pool"); } }
    sx_assert(sx_live() == 0, "pool memory is released"); sx_cover("end"); }
// two requests of every size at once
SX_HARNESS(h_pool_sym) { { BufferPool p; size_t n = sx_range("n", 1, 8196), m = sx_range("m", 1, 8196); bool keep = sx_pick("keep", 0, 1); size_t at; { BufferChunk x = p.get(n); at = x.address; sx_assert((x.length >= n) & (x.getBuffer().getLength() >= n) & (x.getEnd() <= x.getBuffer().getEnd()), "a pool buffer is at least as large as asked for and inside its memory"); BufferChunk y; if (!keep) x.clear(); y = p.get(m); sx_assert((y.length >= m) & (y.getBuffer().getLength() >= m) & (y.getEnd() <= y.getBuffer().getEnd()), "a pool buffer is at least as large as asked for and inside its memory"); if (keep) { sx_assert((x.getEnd() <= y.address) | (y.getEnd() <= x.address), "the pool never hands out memory that is still in use"); sx_cover("both"); } else { if (m <= n) { sx_assert(y.address == at, "a released pool buffer is reused"); sx_cover("reused"); } } } } sx_cover("end"); }
// a released buffer of sufficient size is reused, not reallocated
SX_HARNESS(h_pool_reuse) { { BufferPool p; size_t n = sx_pick("n", 1, 3) * 4100; size_t a; { BufferChunk x = p.get(n); a = x.address; } BufferChunk y = p.get(sx_pick("m", 1, 2) == 1 ? 1 : n); sx_assert(y.address == a, "a released pool buffer is reused"); } sx_cover("end"); }
