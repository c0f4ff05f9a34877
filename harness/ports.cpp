#include "ports.hpp"
enum { CAP = 64 };
// the stream as produced: bytes, and labels at absolute element positions
struct Ref { uint8_t b[CAP]; size_t n = 0; struct L { uint64_t pos; unsigned id; } l[6]; unsigned nl = 0; };
struct Sink { size_t pos = 0; unsigned lab = 0; };   // elements consumed, labels propagated
static unsigned idOf(const Label &l) { return unsigned(l.data.extract<int>()); }
// what a consumer sees is the next part of the stream, with the labels where they were put
static void see(InputPort *in, const Ref &r, const Sink &k, size_t es) {
    const BufferChunk &b = in->buffer(); sx_assert(in->elements() == b.length / es, "elements() counts whole elements"); sx_assert(k.pos * es + b.length <= r.n, "no more than what was produced");
    for (size_t i = 0; i < b.length; i++) sx_assert(b.as<const uint8_t *>()[i] == r.b[k.pos * es + i], "the consumer sees the produced bytes in order");
    unsigned n = 0; for (const auto &l : in->labels()) { sx_assert(k.lab + n < r.nl, "no label appears that was not posted"); sx_assert(idOf(l) == r.l[k.lab + n].id, "labels arrive in order, none lost or repeated"); sx_assert(l.index == r.l[k.lab + n].pos - k.pos, "a label stays attached to its element"); n++; }
    sx_assert(k.lab + n == r.nl, "every label posted upstream is visible downstream"); }
static void took(B &t, const Ref &r, Sink &k, size_t n, unsigned got, unsigned want) { sx_assert(got == want, "exactly the labels on consumed elements are propagated"); k.pos += n; k.lab += want; InputPort *in = t.input("0"); sx_assert(in->totalElements() == k.pos, "totalElements counts consumption"); sx_assert(in->totalLabels() == k.lab, "totalLabels counts consumed labels"); }
static bool gSym; static uint64_t lpos(uint64_t lo, uint64_t hi) { return gSym ? sx_range("label", lo, hi) : sx_pick("label", lo, hi); }
struct Two { B s, t; Ref r; Sink k; size_t es; uint64_t adv = 0; unsigned ids = 0;
    Two(const DType &d) : es(d.size()) { s.setupOutput(0, d); t.setupInput(0, d); s._actor->setOutputBufferManager("0", mgr(2, 8)); link(s, "0", t, "0"); s.on(); t.on(); }
    // one producer turn: some elements and possibly a label on one of them
    void produce(bool ahead) { s.w = [&] { auto o = s.output("0"); size_t n = sx_pick("produce", 0, 2); if (n > o->elements()) n = o->elements(); size_t bytes = n * es; fill(o->buffer().as<void *>(), bytes); memcpy(r.b + r.n, o->buffer().as<const void *>(), bytes);
        if (n && r.nl < 6) { unsigned how = sx_pick("labels", 0, ahead && !SX_DEEP ? 1 : 2); if (how) { uint64_t i = ahead ? lpos(0, 3) : lpos(0, n - 1); o->postLabel("L", int(ids), i); add(r.n / es + i, ids++); if (how == 2) { uint64_t j = ahead ? lpos(0, 3) : lpos(0, n - 1); sx_assume(j != i); o->postLabel(Label("L", int(ids), j)); add(r.n / es + j, ids++); sx_cover("two_labels"); } } }
        r.n += bytes; o->produce(n); }; s.run(); }
    void add(uint64_t pos, unsigned id) { unsigned q = r.nl++; while (q > 0 && r.l[q - 1].pos > pos) { r.l[q] = r.l[q - 1]; q--; } r.l[q].pos = pos; r.l[q].id = id; }
    void consume() { bool ran = false; size_t n = 0; unsigned got = 0, want = 0; 
        t.w = [&] { ran = true; auto in = t.input("0"); see(in, r, k, es); n = sx_pick("consume", 0, 2); if (n > in->elements()) n = in->elements(); in->consume(n); for (unsigned q = k.lab; q < r.nl; q++) if (r.l[q].pos < k.pos + n) want++; };
        t.p = [&](const InputPort *in) { for (const auto &l : in->labels()) { sx_assert(got < want && idOf(l) == r.l[k.lab + got].id && l.index == r.l[k.lab + got].pos - k.pos, "propagated labels are those on the consumed elements, at their positions"); got++; } };
        t.run(); if (ran) { took(t, r, k, n, got, want); if (want) sx_cover("propagated"); if (n) sx_cover("consumed"); } }
    void finish() { for (int i = 0; i < 12 && k.pos * es < r.n; i++) { bool ran = false; size_t n = 0; unsigned got = 0, want = 0; t.w = [&] { ran = true; auto in = t.input("0"); see(in, r, k, es); n = in->elements(); in->consume(n); for (unsigned q = k.lab; q < r.nl; q++) if (r.l[q].pos < k.pos + n) want++; }; t.p = [&](const InputPort *in) { for (const auto &l : in->labels()) { (void)l; got++; } }; t.run(); sx_assert(ran, "a block with input available runs"); took(t, r, k, n, got, want); } sx_assert(k.pos * es == r.n, "everything produced can be consumed"); s.w = [&] { sx_assert(s.output("0")->elements() != 0, "buffers came back"); }; unsigned w0 = s.works; s.run(); sx_assert(s.works == w0 + 1, "the producer can run again once everything was consumed"); } };
static DType dt() { switch (sx_pick("dtype", 0, 1)) { case 0: return DType(typeid(uint16_t)); default: return DType("custom", 3); } }
SX_HARNESS(h_link) { gSym = false; { Two x(dt()); for (unsigned i = 0; i < (SX_DEEP ? 5 : 4); i++) { if (sx_pick("turn", 0, 1)) x.produce(false); else x.consume(); } x.finish(); } sx_cover("end"); }
// with a reserve on the consumer: labels on elements left behind keep their element
SX_HARNESS(h_link_reserve) { gSym = false; { Two x(DType(typeid(uint16_t))); x.t.input("0")->setReserve(sx_pick("reserve", 1, 2)); for (unsigned i = 0; i < (SX_DEEP ? 5 : 4); i++) { if (i && sx_pick("turn", 0, 1)) x.consume(); else x.produce(false); } } sx_cover("end"); }
SX_HARNESS(h_link_ahead) { gSym = false; { Two x(DType(typeid(uint16_t))); for (unsigned i = 0; i < (SX_DEEP ? 4 : 3); i++) { if (sx_pick("turn", 0, 1)) x.produce(true); else x.consume(); } x.consume(); } sx_cover("end"); }
SX_HARNESS(h_link_sym) { gSym = true; { Two x(DType(typeid(uint16_t))); x.produce(sx_pick("ahead", 0, 1)); if (sx_pick("more", 0, 1)) x.produce(false); x.consume(); x.finish(); } sx_cover("end"); }
// labels pushed from outside: attached to the element they name
SX_HARNESS(h_push_label) { { B t; DType d = dt(); size_t es = d.size(); t.setupInput(0, d); t.setupOutput(0, "uint8"); t.on(); BufferChunk b(es * 4); fill(b.as<void *>(), b.length); t.input("0")->pushBuffer(b); uint64_t i = sx_pick("first", 0, 3), j = sx_range("second", 0, 3), w = sx_range("width", 1, 4); t.input("0")->pushLabel(Label("L", int(1), i)); t.input("0")->pushLabel(Label("L", int(2), j, w)); unsigned n = 0, eat = sx_pick("eat", 0, 4), prop = 0; size_t off = 0;
      auto look = [&] { uint64_t last = 0; n = 0; for (const auto &l : t.input("0")->labels()) { unsigned id = idOf(l); sx_assert(id == 1 || id == 2, "known label"); sx_assert(l.index + off == (id == 1 ? i : j), "a pushed label stays attached to its element"); sx_assert(l.width == (id == 1 ? 1 : w), "the width of a label is kept"); sx_assert(l.index >= last, "labels are sorted"); last = l.index; n++; } };
      t.p = [&](const InputPort *in) { for (const auto &l : in->labels()) { (void)l; prop++; } };
      t.w = [&] { look(); sx_assert(n == 2, "both labels are visible"); t.input("0")->consume(eat); }; t.run(); off = eat; unsigned want = (i < eat) + (j < eat); sx_assert(prop == want, "labels on consumed elements are propagated"); t.w = [&] { look(); sx_assert(n == 2 - want, "the others remain"); }; t.run(); } sx_cover("end"); }
