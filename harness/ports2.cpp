#include "ports.hpp"
/* ------------------------------------------------------------ C13: streams, fan-out, in-place processing */
static uint8_t st[128]; static size_t sn;
static void make(B &s, size_t es, unsigned maxn) { s.w = [&s, es, maxn] { auto o = s.output("0"); size_t n = sx_pick("produce", 0, maxn); if (n > o->elements()) n = o->elements(); fill(o->buffer().as<void *>(), n * es); memcpy(st + sn, o->buffer().as<const void *>(), n * es); sn += n * es; o->produce(n); if (n) sx_cover("produced"); }; s.run(); }
static void eat(B &t, size_t es, size_t &pos, uint8_t plus, bool all) { t.w = [&] { auto in = t.input("0"); const BufferChunk &b = in->buffer(); sx_assert(pos + b.length <= sn, "no more than what was produced"); for (size_t i = 0; i < b.length; i++) sx_assert(b.as<const uint8_t *>()[i] == uint8_t(st[pos + i] + plus), "the consumer sees exactly what was sent"); size_t n = in->elements(); if (!all && n) n = sx_pick("consume", 0, 1) ? n : 1; in->consume(n); pos += n * es; if (n) sx_cover("consumed"); }; t.run(); }
// two consumers of one output: both see the whole stream, whatever the turns
SX_HARNESS(h_fanout) { { B s, t, u; sn = 0; size_t p = 0, q = 0; for (B *x : { &t, &u }) x->setupInput(0, "uint16"); s.setupOutput(0, "uint16"); s._actor->setOutputBufferManager("0", mgr(2, 8)); link(s, "0", t, "0"); link(s, "0", u, "0"); s.on(); t.on(); u.on();
      for (unsigned i = 0; i < (SX_DEEP ? 7 : 5); i++) switch (sx_pick("turn", 0, 2)) { case 0: make(s, 2, 4); break; case 1: eat(t, 2, p, 0, false); break; case 2: eat(u, 2, q, 0, false); break; }
      for (int i = 0; i < 8 && (p < sn || q < sn); i++) { eat(t, 2, p, 0, true); eat(u, 2, q, 0, true); } sx_assert(p == sn && q == sn, "both consumers get everything"); unsigned w = s.works; s.w = nullptr; s.run(); sx_assert(s.works == w + 1, "the producer is not left without buffers"); } sx_cover("end"); }
// read-before-write: a block that works in place never changes what another block sees
SX_HARNESS(h_rbw) { { B s, m, t, u; sn = 0; size_t p = 0, q = 0; bool second = sx_pick("second", 0, 1); s.setupOutput(0, "uint8"); m.setupInput(0, "uint8"); m.setupOutput(0, "uint8"); t.setupInput(0, "uint8"); u.setupInput(0, "uint8"); m.output("0")->setReadBeforeWrite(m.input("0")); s._actor->setOutputBufferManager("0", mgr(2, 4)); m._actor->setOutputBufferManager("0", mgr(2, 4)); link(s, "0", m, "0"); link(m, "0", t, "0"); if (second) link(s, "0", u, "0"); for (B *x : { &s, &m, &t, &u }) x->on();
      BufferChunk kept; size_t kpos = 0, mp = 0;
      for (unsigned i = 0; i < (SX_DEEP ? 7 : 5); i++) switch (sx_pick("turn", 0, second ? 3 : 2)) { case 0: make(s, 1, 3); break;
        case 1: m.w = [&] { auto in = m.input("0"); auto o = m.output("0"); size_t n = in->elements() < o->elements() ? in->elements() : o->elements(); if (n > 1 && sx_pick("part", 0, 1)) n--; const uint8_t *a = in->buffer().as<const uint8_t *>(); uint8_t *b = o->buffer().as<uint8_t *>(); if (n && a == b) sx_cover("inplace"); if (n && !kept && !second && sx_pick("keep", 0, 1)) { kept = in->buffer(); kpos = mp; }
            for (size_t j = 0; j < n; j++) b[j] = a[j] + 1; in->consume(n); o->produce(n); mp += n; }; m.run(); break;
        case 2: eat(t, 1, p, 1, true); break; case 3: eat(u, 1, q, 0, true); break; }
      for (int i = 0; i < 8 && p < mp; i++) eat(t, 1, p, 1, true); if (second) for (int i = 0; i < 8 && q < sn; i++) eat(u, 1, q, 0, true); sx_assert(p == mp && (!second || q == sn), "everything arrives"); } sx_cover("end"); }
// an input whose elements are cut across buffers is put together again, and the reserve is honoured
SX_HARNESS(h_fragment) { { B t; sn = 0; size_t pos = 0; size_t es = sx_pick("es", 2, 3); DType d("custom", es); t.setupInput(0, d); t.setupOutput(0, "uint8"); t.on(); size_t rs = sx_pick("reserve", 0, 2); t.input("0")->setReserve(rs); bool met = false;
      for (unsigned i = 0; i < 4; i++) { if (sx_pick("turn", 0, 1)) { size_t n = sx_pick("bytes", 1, 3); if (sn + n > 12) continue; BufferChunk b(n); fill(b.as<void *>(), n); memcpy(st + sn, b.as<const void *>(), n); sn += n; t.input("0")->pushBuffer(b); }
        else { unsigned w0 = t.works; t.w = [&] { auto in = t.input("0"); const BufferChunk &b = in->buffer(); sx_assert(in->elements() == b.length / es, "elements() counts whole elements"); size_t avail = (sn - pos) / es, want = rs > 1 ? rs : 1; if (avail >= want) { sx_assert(in->elements() >= want, "when enough elements arrived the buffer holds at least the reserve"); sx_cover("met"); } for (size_t j = 0; j < b.length; j++) sx_assert(b.as<const uint8_t *>()[j] == st[pos + j], "elements cut across buffers are intact"); size_t n = in->elements(); if (n && sx_pick("one", 0, 1)) n = 1; in->consume(n); pos += n * es; }; size_t avail = (sn - pos) / es; t.run(); if (rs && avail < rs) sx_assert(t.works == w0, "work() is not called while the only input is below its reserve"); if (avail >= rs) sx_assert(t.works == w0 + 1, "work() is called once the reserve is reached"); } } }
    sx_cover("end"); }
// the same with symbolic amounts. One byte of the stream at a symbolic position is followed; the producer may write anywhere in the buffer it is offered.
static size_t gG; static uint8_t gV;
static void startSym() { sn = 0; gG = sx_range("followed", 0, 31); gV = sx_u8("value"); }
static void writeSym(const BufferChunk &b, size_t n) { uint8_t *p = b.as<uint8_t *>(); size_t x = sx_u64("scribble"); sx_assume(x < b.length); p[x] = uint8_t(~gV); if (gG - sn < n) p[gG - sn] = gV; sn += n; }
static void makeSym(B &s, size_t mx) { s.w = [&s, mx] { auto o = s.output("0"); size_t n = sx_range("produce", 1, mx); sx_assume(n <= o->elements()); writeSym(o->buffer(), n); o->produce(n); }; s.run(); }
static void eatSym(B &t, size_t &pos, bool last = false) { t.w = [&] { auto in = t.input("0"); const BufferChunk &b = in->buffer(); sx_assert(pos + b.length <= sn, "no more than what was produced"); if (gG - pos < b.length) sx_assert(b.as<const uint8_t *>()[gG - pos] == gV, "the consumer sees exactly what was sent"); size_t n = in->elements(); if (!last) { n = sx_range("consume", 1, 16); sx_assume(n <= in->elements()); } in->consume(n); pos += n; sx_cover("consumed"); }; t.run(); sx_assert(t.input("0")->totalElements() == pos, "consumption is counted"); }
SX_HARNESS(h_fanout_sym) { { B s, t, u; startSym(); size_t p = 0, q = 0; for (B *x : { &t, &u }) x->setupInput(0, "uint8"); s.setupOutput(0, "uint8"); s._actor->setOutputBufferManager("0", mgr(2, 4)); link(s, "0", t, "0"); link(s, "0", u, "0"); s.on(); t.on(); u.on();
      makeSym(s, 4); for (unsigned i = 0; i < (SX_DEEP ? 2 : 1); i++) switch (sx_pick("turn", 0, i == 0 ? 1 : 2)) { case 0: makeSym(s, 4); break; case 1: eatSym(t, p); break; case 2: eatSym(u, q); break; } eatSym(u, q, true); eatSym(t, p, true); } sx_cover("end"); }
/* ------------------------------------------------------------ C14: output ports */
// produce, posted buffers, popped elements and reserves, in any mix: what is sent arrives, nothing else does
SX_HARNESS(h_output) { { B s, t; sn = 0; size_t p = 0; s.setupOutput(0, "uint16"); t.setupInput(0, "uint16"); s._actor->setOutputBufferManager("0", mgr(3, 8)); link(s, "0", t, "0"); s.on(); t.on(); size_t rs = 0; unsigned long long te = 0, tb = 0;
      for (unsigned i = 0; i < (SX_DEEP ? 5 : 4); i++) { if (sx_pick("turn", 0, 1)) { eat(t, 2, p, 0, true); continue; } bool ran = false;
        s.w = [&] { ran = true; auto o = s.output("0"); sx_assert(o->elements() != 0, "work() is not called without output space"); if (rs <= 4) sx_assert(o->elements() >= rs, "the buffer holds at least the reserve"); sx_assert(o->elements() * 2 == o->buffer().length / 2 * 2 && o->buffer().getEnd() <= o->buffer().getBuffer().getEnd(), "the output buffer is inside its memory");
          BufferChunk kept[2]; unsigned how = (unsigned)sx_pick("how", 0, 4); unsigned acts = (how == 1 || how == 2) && i == (SX_DEEP ? 2 : 1) ? (unsigned)sx_pick("acts", 1, 2) : 1; for (unsigned act = 0; act < acts; act++) switch (act ? sx_pick("then", 1, 2) : how) { case 0: { size_t n = sx_pick("n", 0, 1) ? o->elements() : 1; fill(o->buffer().as<void *>(), n * 2); memcpy(st + sn, o->buffer().as<const void *>(), n * 2); sn += n * 2; o->produce(n); te += n; if (n) tb++; break; }
            case 1: { size_t n = sx_pick("n", 1, 3) * 2 - 1; BufferChunk b = o->getBuffer(n); sx_assert(b.length == n * 2 && b.dtype == o->dtype(), "a requested buffer has the requested length and type"); fill(b.as<void *>(), n * 2); memcpy(st + sn, b.as<const void *>(), n * 2); sn += n * 2; te += n; tb++; o->postBuffer(std::move(b)); sx_cover("posted"); break; }
            case 2: { BufferChunk b = o->getBuffer(DType("uint8"), 4); sx_assert(b.length == 4 && b.dtype == DType("uint8"), "a requested buffer has the requested length and type"); memset(b.as<void *>(), 0xA0 + act, 4); kept[act] = b; break; }
            case 3: { o->popElements(1); sx_cover("popped"); break; }
            case 4: { rs = sx_pick("reserve", 2, 4); o->setReserve(rs); break; } } for (unsigned act = 0; act < 2; act++) if (kept[act]) for (int j = 0; j < 4; j++) sx_assert(kept[act].as<const uint8_t *>()[j] == 0xA0 + act, "a requested buffer belongs to the block alone"); }; s.run(); sx_assert(s.output("0")->totalElements() == te && s.output("0")->totalBuffers() == tb, "totals count what was sent"); if (!ran) sx_cover("starved"); }
      for (int i = 0; i < 12 && p < sn; i++) eat(t, 2, p, 0, true); sx_assert(p == sn, "everything sent arrives"); unsigned w = s.works; s.w = nullptr; s.run(); sx_assert(s.works == w + 1, "the producer is not left without buffers"); } sx_cover("end"); }
SX_HARNESS(h_output_sym) { { B s, t; startSym(); size_t p = 0; s.setupOutput(0, "uint8"); t.setupInput(0, "uint8"); s._actor->setOutputBufferManager("0", mgr(2, 4)); link(s, "0", t, "0"); s.on(); t.on(); size_t rs = 0;
      for (unsigned i = 0; i < (SX_DEEP ? 3 : 2); i++) { s.w = [&] { auto o = s.output("0"); sx_assert(o->elements() != 0, "work() is not called without output space"); sx_assert(o->elements() >= rs, "the buffer holds at least the reserve"); sx_assert(o->buffer().getEnd() <= o->buffer().getBuffer().getEnd() && o->buffer().address >= o->buffer().getBuffer().getAddress(), "the output buffer is inside its memory"); size_t n;
          switch (sx_pick("how", 0, 2)) { case 0: n = sx_range("produce", 1, 4); sx_assume(n <= o->elements()); writeSym(o->buffer(), n); o->produce(n); break;
            case 1: n = sx_range("pop", 1, 4); sx_assume(n <= o->elements()); o->popElements(n); sx_cover("popped"); break; case 2: rs = sx_range("reserve", 0, 4); o->setReserve(rs); break; } }; s.run(); sx_assert(s.output("0")->totalElements() == sn, "totals count what was sent"); }
      eatSym(t, p, true); } sx_cover("end"); }
/* ------------------------------------------------------------ C15: messages, signals and slots */
SX_HARNESS(h_msg) { { B s, t, u; s.setupOutput("out"); t.setupInput("in"); u.setupInput("in"); s._actor->setOutputBufferManager("out", mgr(2, 8)); link(s, "out", t, "in"); link(s, "out", u, "in"); for (B *x : { &s, &t, &u }) x->on(); int v[8]; unsigned n = 0, a[2] = { 0, 0 };
      for (unsigned i = 0; i < (SX_DEEP ? 7 : 6); i++) { unsigned op = sx_pick("op", 0, 2); if (op == 0) { if (n < 8) { v[n] = int(sx_u32("v")); s.w = [&] { s.output("out")->postMessage(v[n]); }; s.run(); n++; sx_assert(s.output("out")->totalMessages() == n, "totalMessages counts posts"); } }
        else { B &x = op == 1 ? t : u; unsigned &k = a[op - 1]; auto in = x.input("in"); bool ran = false; x.w = [&] { ran = true; if (!in->hasMessage()) { sx_assert(k == n, "a posted message is available"); return; } sx_assert(k < n, "no message appears from nowhere"); if (sx_pick("peek", 0, 1)) sx_assert(in->peekMessage().extract<int>() == v[k], "peek shows the next message"); Object m = in->popMessage(); sx_assert(m.extract<int>() == v[k], "messages arrive in order with their contents"); k++; sx_cover("received"); }; x.run(); sx_assert(ran, "the block runs"); sx_assert(in->totalMessages() == k, "totalMessages counts pops"); } } }
    sx_cover("end"); }
// a producer that gets ahead is held back, and goes on as soon as messages are taken
SX_HARNESS(h_msg_tokens) { { B s, t; s.setupOutput("out"); t.setupInput("in"); s._actor->setOutputBufferManager("out", mgr(2, 8)); link(s, "out", t, "in"); s.on(); t.on(); unsigned n = 0, k = 0; s.w = [&] { s.output("out")->postMessage(int(n)); n++; }; for (int i = 0; i < 40; i++) s.run(); sx_assert(n > 0 && n <= 40, "producer ran"); bool held = n < 40; if (held) sx_cover("held");
      unsigned take = sx_pick("take", 1, 3); t.w = [&] { for (unsigned i = 0; i < take && k < n; i++) { sx_assert(t.input("in")->popMessage().extract<int>() == int(k), "in order"); k++; } }; t.run(); unsigned n0 = n; s.run(); sx_assert(n == n0 + 1, "the producer continues once messages were taken"); take = 100; t.run(); sx_assert(k == n, "every message arrives"); } sx_cover("end"); }
struct SB : B { int got[8]; unsigned n = 0; void take(int a, int b) { got[n++] = a; sx_assert(b == a + 1, "arguments arrive together"); } int two() { return 2; } SB() { registerCall(this, "take", &SB::take); registerSignal("sig"); } };
SX_HARNESS(h_slot) { { SB s, t; link(s, "sig", t, "take"); s.on(); t.on(); int v[6]; unsigned n = 0; t.w = nullptr;
      for (unsigned i = 0; i < (SX_DEEP ? 6 : 5); i++) { if (sx_pick("op", 0, 1) && n < 6) { v[n] = int(sx_u32("v")) & 0xffffff; s.call("sig", v[n], v[n] + 1); n++; } else { t.run(); sx_assert(t.n == n, "every signal emitted so far has called the slot exactly once"); for (unsigned j = 0; j < n; j++) sx_assert(t.got[j] == v[j], "slot calls happen in order with their arguments"); if (n) sx_cover("called"); } } t.run(); sx_assert(t.n == n, "every signal arrives"); } sx_cover("end"); }
/* ------------------------------------------------------------ C32: what work() is told */
SX_HARNESS(h_workinfo) { { B t; t.setupInput(0, "uint16"); t.setupInput(1, "uint8"); t.setupInput("x", "uint32"); t.setupOutput(0, "uint16"); t.setupOutput("y", "uint8"); t._actor->setOutputBufferManager("0", mgr(2, 8)); t._actor->setOutputBufferManager("y", mgr(2, 4)); t.on();
      t._actor->setOutputBufferManager("0", mgr(2, sx_pick("o", 1, 4) * 2)); t._actor->setOutputBufferManager("y", mgr(2, sx_pick("y", 1, 4)));
      size_t n[3]; const char *nm[3] = { "0", "1", "x" }; size_t es[3] = { 2, 1, 4 }; for (int i = 0; i < 3; i++) { n[i] = sx_pick("n", 0, 3); size_t rs = i < 2 ? 0 : sx_pick("r", 0, 1); t.input(nm[i])->setReserve(rs); if (n[i]) { BufferChunk b(n[i] * es[i]); fill(b.as<void *>(), b.length); t.input(nm[i])->pushBuffer(b); } }
      bool ran = false; t.w = [&] { ran = true; const WorkInfo &w = t.workInfo(); size_t e[5] = { t.input("0")->elements(), t.input("1")->elements(), t.input("x")->elements(), t.output("0")->elements(), t.output("y")->elements() }; for (int i = 0; i < 3; i++) sx_assert(e[i] == n[i], "inputs show what was pushed");
        auto mn = [](size_t a, size_t b) { return a < b ? a : b; }; sx_assert(w.minInElements == mn(e[0], e[1]), "minInElements"); sx_assert(w.minAllInElements == mn(mn(e[0], e[1]), e[2]), "minAllInElements"); sx_assert(w.minOutElements == e[3], "minOutElements"); sx_assert(w.minAllOutElements == mn(e[3], e[4]), "minAllOutElements"); sx_assert(w.minElements == mn(w.minInElements, e[3]), "minElements"); sx_assert(w.minAllElements == mn(w.minAllInElements, w.minAllOutElements), "minAllElements");
        sx_assert(w.inputPointers.size() == 2 && w.outputPointers.size() == 1, "one pointer per indexed port"); for (int i = 0; i < 2; i++) sx_assert(w.inputPointers[i] == t.input(nm[i])->buffer().as<const void *>(), "input pointers"); sx_assert(w.outputPointers[0] == t.output("0")->buffer().as<void *>(), "output pointers"); };
      t.run(); sx_assert(ran, "a block whose reserves are met runs"); } sx_cover("end"); }
// the same with every input length and every amount of output space at once
SX_HARNESS(h_workinfo_sym) { { B t; t.setupInput(0, "uint16"); t.setupInput(1, "uint8"); t.setupInput("x", "uint32"); t.setupOutput(0, "uint16"); t.setupOutput("y", "uint8"); t._actor->setOutputBufferManager("0", mgr(2, 8)); t._actor->setOutputBufferManager("y", mgr(2, 8)); t.on(); t._actor->setOutputBufferManager("0", mgr(2, 64)); t._actor->setOutputBufferManager("y", mgr(2, 64));
      // less than half of each output is used up first, which leaves the rest as output space
      size_t u0 = sx_range("used0", 0, 15), uy = sx_range("usedy", 0, 31); bool first = true; t.w = [&] { if (first) { t.output("0")->popElements(u0); t.output("y")->popElements(uy); first = false; } };
      size_t b[3]; const char *nm[3] = { "0", "1", "x" }; const size_t es[3] = { 2, 1, 4 }; for (int i = 0; i < 3; i++) { t.input(nm[i])->setReserve(i ? 0 : 0); b[i] = sx_range("bytes", 1, 255); }
      t.run(); sx_assert(!first, "the block runs"); for (int i = 0; i < 3; i++) { BufferChunk c(256); c.length = b[i]; t.input(nm[i])->pushBuffer(c); }
      bool ran = false; t.w = [&] { ran = true; const WorkInfo &w = t.workInfo(); size_t e[5] = { t.input("0")->elements(), t.input("1")->elements(), t.input("x")->elements(), t.output("0")->elements(), t.output("y")->elements() }; for (int i = 0; i < 3; i++) sx_assert(e[i] == b[i] / es[i], "inputs show what was pushed"); sx_assert(e[3] == 32 - u0 && e[4] == 64 - uy, "outputs show the space that is left");
        auto mn = [](size_t a, size_t b) { return a < b ? a : b; }; sx_assert(w.minInElements == mn(e[0], e[1]), "minInElements"); sx_assert(w.minAllInElements == mn(mn(e[0], e[1]), e[2]), "minAllInElements"); sx_assert(w.minOutElements == e[3], "minOutElements"); sx_assert(w.minAllOutElements == mn(e[3], e[4]), "minAllOutElements"); sx_assert(w.minElements == mn(w.minInElements, e[3]), "minElements"); sx_assert(w.minAllElements == mn(w.minAllInElements, w.minAllOutElements), "minAllElements");
        for (int i = 0; i < 2; i++) sx_assert(w.inputPointers[i] == t.input(nm[i])->buffer().as<const void *>(), "input pointers"); sx_assert(w.outputPointers[0] == t.output("0")->buffer().as<void *>(), "output pointers"); };
      t.run(); sx_assert(ran, "a block whose reserves are met runs"); } sx_cover("end"); }
