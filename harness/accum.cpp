#include "symx.h"
#include <Pothos/Framework/BufferAccumulator.hpp>
#include <Pothos/Framework/BufferManager.hpp>
#include <cstring>
using namespace Pothos;
// Reference: the accumulator is a byte stream. gS[0..gN) are all bytes pushed so far, gP of them have been popped.
static uint8_t gS[64]; static unsigned gN, gP;
static void check(const BufferAccumulator &a, bool pooled = false) {
    sx_assert(a.getTotalBytesAvailable() == gN - gP, "byte count equals bytes pushed minus bytes popped"); sx_assert(a.empty() == (gN == gP), "empty() agrees with the byte count");
    const BufferChunk &f = a.front(); sx_assert(f.length <= gN - gP, "the front holds no more than what is available"); sx_assert(gN == gP || f.length != 0, "the front is not empty while bytes are available");
    for (size_t i = 0; i < f.length; i++) sx_assert(((const uint8_t *)f.address)[i] == gS[gP + i], "the front presents the stream bytes in order");
}
static void push(BufferAccumulator &a, const BufferChunk &c) { for (size_t i = 0; i < c.length; i++) gS[gN++] = ((const uint8_t *)c.address)[i]; a.push(BufferChunk(c)); }
static void drain(BufferAccumulator &a) { while (gN != gP) { check(a); size_t n = a.front().length; a.pop(n); gP += n; } check(a); }
enum { SLAB = 6 };
// every buffer the front reaches into stays referenced by the accumulator
static void refs(const BufferAccumulator &a, const SharedBuffer &slab, const ManagedBuffer *mb) { const BufferChunk &f = a.front(); if (!f.length || f.address < slab.getAddress() || f.address >= slab.getEnd()) return; size_t lo = f.address - slab.getAddress(), hi = lo + f.length - 1; for (size_t i = lo / SLAB; i <= hi / SLAB; i++) sx_assert(mb[i].useCount() >= 2, "a buffer is held while the accumulator presents its bytes"); }
static void fill(const BufferChunk &c) { sx_bytes((void *)c.address, c.length, "mem"); }
static void ops(BufferAccumulator &a, unsigned n, unsigned maxReq) {
    for (unsigned i = 0; i < n; i++) {
        if (sx_pick("op", 0, 1)) { size_t k = sx_pick("req", 2, maxReq / 2) * 2 - (maxReq > 6); size_t before = a.front().length; a.require(k); check(a);
            if (gN - gP >= k) { sx_assert(a.front().length >= k, "after require the front is at least as large as asked, when enough bytes are available"); if (before < k) sx_cover("pooled"); } }
        else { size_t f = a.front().length; if (!f) continue; size_t k = sx_pick("pop", 1, f); a.pop(k); gP += k; check(a); sx_cover("popped"); }
    }
}
// chunks of unrelated buffers, at any offset and length
SX_HARNESS(h_acc_separate) { gN = gP = 0; { BufferAccumulator a; check(a); unsigned n = sx_pick("n", 1, SX_DEEP ? 3 : 2);
      for (unsigned i = 0; i < n; i++) { BufferChunk b(6); fill(b); unsigned off = sx_pick("off", 0, 2) * (SX_DEEP ? 1 : 1); b.address += off; b.length = sx_pick("len", 1, 2 + SX_DEEP * 2); push(a, b); check(a); }
      ops(a, SX_DEEP ? 3 : 2, 6); if (sx_pick("more", 0, 1)) { BufferChunk b(4); fill(b); unsigned off = sx_pick("off", 0, 1) * 2; b.address += off; b.length -= off; push(a, b); check(a); ops(a, 1, 6); }
      drain(a); } sx_cover("end"); }
// adjacent pieces of one slab, pushed in order or not, whole or partial
SX_HARNESS(h_acc_slab) { gN = gP = 0; { SharedBuffer slab = SharedBuffer::make(3 * SLAB); BufferChunk all(slab); fill(all); ManagedBuffer mb[3]; for (int i = 0; i < 3; i++) mb[i] = ManagedBuffer(SharedBuffer(slab.getAddress() + i * SLAB, SLAB, slab));
      mb[0].setNextBuffer(mb[1]); mb[1].setNextBuffer(mb[2]);
      BufferAccumulator a; unsigned n = sx_pick("n", 2, SX_DEEP ? 4 : 3); unsigned pos = 0; bool seq = sx_pick("seq", 0, 1);
      for (unsigned i = 0; i < n; i++) { unsigned k; size_t off, len; if (seq) { if (pos >= 3 * SLAB) break; k = pos / SLAB; off = pos % SLAB; len = sx_pick("len", 0, 1) ? SLAB - off : (SLAB - off + 1) / 2; pos += len; } else { k = sx_pick("which", 0, 2); off = SX_DEEP ? sx_pick("off", 0, 1) * 2 : (i & 1) * 2; len = sx_pick("len", 1, 2) * 2; }
        BufferChunk b(mb[k]); b.address += off; b.length = len; push(a, b); b.clear(); check(a); refs(a, slab, mb);
        if (i == 0 && sx_pick("early", 0, 1)) { size_t k2 = sx_pick("pop", 1, 2); if (k2 <= a.front().length) { a.pop(k2); gP += k2; check(a); } } }
      ops(a, SX_DEEP ? 3 : 2, 8); refs(a, slab, mb); drain(a); for (int i = 0; i < 3; i++) sx_assert(mb[i].useCount() == 1, "a fully consumed buffer is no longer referenced"); } sx_cover("end"); }
// amalgamated chunks handed downstream keep every buffer they cover, and are taken apart again by the next accumulator
SX_HARNESS(h_acc_forward) { gN = gP = 0; { SharedBuffer slab = SharedBuffer::make(3 * SLAB); BufferChunk all(slab); fill(all); ManagedBuffer mb[3]; for (int i = 0; i < 3; i++) mb[i] = ManagedBuffer(SharedBuffer(slab.getAddress() + i * SLAB, SLAB, slab));
      mb[0].setNextBuffer(mb[1]); mb[1].setNextBuffer(mb[2]); unsigned s = gN;
      BufferAccumulator a, d; unsigned n = sx_pick("n", 1, 3); for (unsigned i = 0; i < n; i++) { BufferChunk b(mb[i]); if (i + 1 == n) b.length = sx_pick("last", 1, SLAB); push(a, b); } check(a);
      size_t len = a.front().length; sx_assert(len == gN - s, "adjacent chunks are presented as one"); size_t skip = sx_pick("skip", 0, SLAB + 1); sx_assume(skip < len);
      if (skip) { a.pop(skip); gP += skip; check(a); }
      BufferChunk held = a.front(); size_t rest = a.front().length; size_t take = sx_pick("take", 1, rest); held.length = take;
      { BufferChunk copy(held); sx_assert(copy.address == held.address && copy.length == take, "a copy is the same range");
        a.pop(rest); sx_assert(a.empty(), "all popped");
        size_t lo = copy.address - slab.getAddress(), hi = lo + take - 1; for (unsigned i = lo / SLAB; i <= hi / SLAB; i++) sx_assert(mb[i].useCount() >= 2, "every buffer a chunk reaches into stays referenced while the chunk lives");
        held.clear(); for (unsigned i = lo / SLAB; i <= hi / SLAB; i++) sx_assert(mb[i].useCount() >= 2, "every buffer a copied chunk reaches into stays referenced while the copy lives");
        gN = gP + take; d.push(std::move(copy)); }
      check(d); size_t k = sx_pick("dpop", 1, take); if (k <= d.front().length) { d.pop(k); gP += k; check(d); } drain(d);
      for (int i = 0; i < 3; i++) sx_assert(mb[i].useCount() == 1, "after everything is consumed no buffer is referenced any more"); } sx_cover("end"); }
// clear forgets everything
SX_HARNESS(h_acc_clear) { gN = gP = 0; { BufferAccumulator a; ManagedBuffer m(SharedBuffer::make(4)); BufferChunk b(m); fill(b); push(a, b); b.length = 2; push(a, b); if (sx_pick("req", 0, 1)) a.require(6); if (sx_pick("pop", 0, 1)) { a.pop(1); gP++; } b.clear(); a.clear(); gN = gP = 0; check(a); sx_assert(m.useCount() == 1, "cleared accumulators reference nothing"); BufferChunk c(m); fill(c); push(a, c); check(a); drain(a); } sx_cover("end"); }

// the copy buffer is smaller than what is queued: part of a chunk is copied, the rest stays where it is
enum { BIG = 8192 };
static uint8_t gA[4]; static unsigned gAn; static const uint8_t *gB;
static uint8_t at(unsigned i) { return i < gAn ? gA[i] : gB[i - gAn]; }
static void checkBig(const BufferAccumulator &a, size_t total, size_t popped) {
    sx_assert(a.getTotalBytesAvailable() == total - popped, "byte count equals bytes pushed minus bytes popped"); const BufferChunk &f = a.front(); sx_assert(f.length <= total - popped && (f.length != 0 || total == popped), "front length is sane");
    for (size_t i = 0; i < f.length && i < 6; i++) { sx_assert(((const uint8_t *)f.address)[i] == at(popped + i), "the front presents the stream bytes in order"); sx_assert(((const uint8_t *)f.address)[f.length - 1 - i] == at(popped + f.length - 1 - i), "the front presents the stream bytes in order up to its end"); } }
SX_HARNESS(h_acc_big) { { BufferAccumulator a; BufferChunk A(4), Bb(BIG + 16); fill(A); for (unsigned i = 0; i < BIG + 16; i++) Bb.as<uint8_t *>()[i] = uint8_t(i * 7 + (i >> 8)); sx_bytes((void *)(Bb.address + BIG - 4), 12, "mid"); sx_bytes((void *)Bb.address, 12, "low");
      unsigned aoff = sx_pick("aoff", 0, 1); A.address += aoff; A.length = gAn = sx_pick("alen", 1, 3); memcpy(gA, (void *)A.address, gAn); unsigned boff = sx_pick("boff", 0, 1) * 8; Bb.address += boff; Bb.length = BIG + sx_pick("blen", 0, 4); gB = Bb.as<const uint8_t *>();
      size_t total = A.length + Bb.length, popped = 0; a.push(BufferChunk(A)); a.push(BufferChunk(Bb)); checkBig(a, total, 0);
      size_t rq = sx_pick("req", 2, 4); a.require(rq); checkBig(a, total, 0); sx_assert(a.front().length >= rq, "after require the front is at least as large as asked");
      for (int i = 0; i < 2; i++) { size_t f = a.front().length; if (!f) break; size_t k = 0; switch (sx_pick("pop", 0, 5)) { case 0: k = 1; break; case 1: k = gAn; break; case 2: k = gAn + 1; break; case 3: k = f; break; case 4: k = f - 1; break; case 5: k = f > 4 ? f - 4 : 1; break; } if (k > f || !k) break; a.pop(k); popped += k; checkBig(a, total, popped); if (i == 0 && sx_pick("again", 0, 1)) { a.require(5); checkBig(a, total, popped); } }
      while (popped < total) { size_t f = a.front().length; a.pop(f); popped += f; checkBig(a, total, popped); } } sx_cover("end"); }
// the same with symbolic offsets, lengths, amounts and positions: every value at once
static void checkSym(const BufferAccumulator &a, const uint8_t *s, size_t n, size_t p) { sx_assert(a.getTotalBytesAvailable() == n - p, "byte count equals bytes pushed minus bytes popped"); const BufferChunk &f = a.front(); sx_assert((f.length <= n - p) & ((n == p) | (f.length != 0)), "front length is between 1 and what is available");
    size_t i = sx_in("pos", 64); sx_assume(i < f.length); sx_assert(((const uint8_t *)f.address)[i] == s[p + i], "the front presents the stream byte at every position"); }
SX_HARNESS(h_acc_sym) { { uint8_t st[16]; BufferAccumulator a; BufferChunk x(8), y(8); fill(x); fill(y); size_t xo = SX_DEEP ? sx_range("xoff", 0, 3) : 1, xl = sx_range("xlen", 1, SX_DEEP ? 3 : 2), yo = SX_DEEP ? sx_range("yoff", 0, 3) : 3, yl = sx_range("ylen", 1, SX_DEEP ? 4 : 3);
      for (size_t i = 0; i < 16; i++) st[i] = 0; for (size_t i = 0; i < 3; i++) if (i < xl) st[i] = ((uint8_t *)x.address)[xo + i]; for (size_t i = 0; i < 4; i++) if (i < yl) st[xl + i] = ((uint8_t *)y.address)[yo + i];
      x.address += xo; x.length = xl; y.address += yo; y.length = yl; a.push(BufferChunk(x)); a.push(BufferChunk(y)); size_t n = xl + yl, p = 0;
      switch (sx_pick("way", 0, 2)) {
      case 0: { size_t k = sx_range("pop", 1, 3); sx_assume(k <= xl); a.pop(k); p = k; checkSym(a, st, n, p); break; }
      case 1: { size_t r = sx_range("req", 1, SX_DEEP ? 7 : 5); sx_assume(r <= n); a.require(r); sx_assert(a.front().length >= r, "after require the front is as large as asked"); size_t k = sx_range("pop", 1, 7); sx_assume(k <= a.front().length); a.pop(k); p = k; if (p < n) checkSym(a, st, n, p); break; }
      case 2: checkSym(a, st, n, 0); break; } } sx_cover("end"); }
// any mix of short and long chunks, small and large requirements and pops, against the copy buffer's fixed size
static uint8_t gT[4 * BIG]; static size_t gTn, gTp;
static void pushT(BufferAccumulator &a, size_t n) { BufferChunk b(n + 64); memset((void *)b.address, 0xEE, 64); b.address += 64; b.length = n; for (size_t i = 0; i < n; i++) b.as<uint8_t *>()[i] = gT[gTn + i] = uint8_t((gTn + i) * 7 + ((gTn + i) >> 8)); gTn += n; a.push(std::move(b)); }
static void checkT(const BufferAccumulator &a) { sx_assert(a.getTotalBytesAvailable() == gTn - gTp, "byte count equals bytes pushed minus bytes popped"); const BufferChunk &f = a.front(); sx_assert(f.length <= gTn - gTp && (f.length != 0 || gTn == gTp), "front length is sane");
    for (size_t i = 0; i < f.length && i < 6; i++) { sx_assert(((const uint8_t *)f.address)[i] == gT[gTp + i], "the front presents the stream bytes in order"); sx_assert(((const uint8_t *)f.address)[f.length - 1 - i] == gT[gTp + f.length - 1 - i], "the front presents the stream bytes in order up to its end"); } }
SX_HARNESS(h_acc_bigops) { gTn = gTp = 0; { BufferAccumulator a; pushT(a, 4); pushT(a, BIG + 200); unsigned np = 0; for (unsigned s = 0; s < (SX_DEEP ? 6 : 5); s++) { size_t f = a.front().length;
        switch (sx_pick("op", 0, 6)) { case 0: if (np++ < 2) pushT(a, 8); break; case 1: if (np++ < 2) pushT(a, BIG + 100); break; case 2: a.require(8); if (gTn - gTp >= 8) sx_assert(a.front().length >= 8, "after require the front is at least as large as asked"); break; case 3: a.require(BIG + 150); if (gTn - gTp >= BIG + 150) { sx_assert(a.front().length >= BIG + 150, "after require the front is at least as large as asked"); sx_cover("bigger"); } break; case 4: a.pop(f); gTp += f; break; case 5: if (f > 6) { a.pop(f - 6); gTp += f - 6; } break; case 6: if (f) { a.pop(1); gTp++; } break; } checkT(a); }
      while (gTp != gTn) { size_t f = a.front().length; if (f > 4) f -= 4; a.pop(f); gTp += f; checkT(a); } } sx_cover("end"); }
