// Topologies: connect, disconnect, hierarchy, commit (C28, C33).
#include "ports.hpp"
#include <Pothos/Framework/Topology.hpp>
#include <map>
#include <set>
#include <vector>
// a block that counts its activations
struct L : B { int on = 0, off = 0; void activate() { on++; } void deactivate() { off++; } };
template <typename F> static bool refused(const F &f) { try { f(); } catch (const TopologyConnectError &) { return true; } return false; }
// a choice made by the solver
static unsigned choose(const char *what, unsigned lo, unsigned hi) { unsigned v = (unsigned)sx_range(what, lo, hi); for (unsigned k = lo; k < hi; k++) if (v == k) return k; return hi; }
// a message sent by each output is received exactly by the inputs it should reach
struct End { B *b; const char *port; };
static void deliver(const std::vector<End> &outs, const std::vector<End> &ins, const std::vector<std::vector<int>> &want, const char *what) {
    for (size_t i = 0; i < outs.size(); i++) { auto &all = outs[i].b->allOutputs(); auto it = all.find(outs[i].port); if (it == all.end()) { for (int w : want[i]) sx_assert(!w, what); continue; } unsigned v = sx_u32("message"); it->second->postMessage(Object(v));
        for (size_t k = 0; k < ins.size(); k++) { auto &al = ins[k].b->allInputs(); auto jt = al.find(ins[k].port); int n = 0; if (jt != al.end()) while (jt->second->hasMessage()) { Object m = jt->second->popMessage(); sx_assert(m.type() == typeid(unsigned) && m.extract<unsigned>() == v, "a message arrives as it was sent"); n++; } sx_assert(n == want[i][k], what); if (n) sx_cover("delivered"); } } }
/* ------------------------------------------------------------ C33: one topology, any history */
SX_HARNESS(h_topo_history) { sx_opt("fifo", 1); { L a, b, c; a.setupOutput(0, "uint8"); b.setupInput(0, "uint8"); c.setupInput(0, "uint8"); c.setupOutput(0, "uint8"); std::shared_ptr<Topology> tp = Topology::make(); Topology &t = *tp;
    struct Fl { L *s; const char *sp; L *d; const char *dp; } F[4] = { { &a, "0", &b, "0" }, { &a, "0", &c, "0" }, { &c, "0", &b, "0" }, { &a, "1", &b, "1" } }; bool conn[4] = {}, act[4] = {}; L *all[3] = { &a, &b, &c }; int on[3] = {}, off[3] = {};
    unsigned steps = SX_DEEP ? 5 : 4; for (unsigned i = 0; i <= steps; i++) { unsigned op = i == steps ? 4 : i < 2 ? (unsigned)sx_pick("op", 0, i == 0 ? 3 : 5) : choose("op", 0, 5);
      if (op < 4) { Fl &f = F[op]; if (!conn[op]) { sx_assert(refused([&] { t.disconnect(*f.s, f.sp, *f.d, f.dp); }), "a connection that does not exist cannot be disconnected"); t.connect(*f.s, f.sp, *f.d, f.dp); conn[op] = true; sx_assert(refused([&] { t.connect(*f.s, f.sp, *f.d, f.dp); }), "a connection cannot be made twice"); sx_assert(f.s->allOutputs().count(f.sp) == 1 && f.d->allInputs().count(f.dp) == 1, "connected ports exist"); }
          else { t.disconnect(*f.s, f.sp, *f.d, f.dp); conn[op] = false; sx_cover("disconnected"); } }
      else if (op == 5) { t.disconnectAll(); for (bool &x : conn) x = false; sx_cover("cleared"); }
      else { t.commit(); for (int k = 0; k < 3; k++) { bool was = false, is = false; for (int q = 0; q < 4; q++) if (F[q].s == all[k] || F[q].d == all[k]) { was |= act[q]; is |= conn[q]; } if (is && !was) on[k]++; if (was && !is) { off[k]++; sx_cover("deactivated"); } sx_assert(all[k]->on == on[k] && all[k]->off == off[k] && all[k]->isActive() == is, "a block is activated when it joins and deactivated when it leaves the design"); }
          for (int q = 0; q < 4; q++) act[q] = conn[q]; sx_cover("committed"); }
      std::vector<End> outs = { { &a, "0" }, { &a, "1" }, { &c, "0" } }, ins = { { &b, "0" }, { &b, "1" }, { &c, "0" } }; std::vector<std::vector<int>> want = { { act[0], 0, act[1] }, { 0, act[3], 0 }, { act[2], 0, 0 } }; deliver(outs, ins, want, "messages go exactly where the committed connections lead"); } } sx_cover("end"); }
// what is refused changes nothing
SX_HARNESS(h_topo_refuse) { sx_opt("fifo", 1); { L a, b; a.setupOutput(0, "uint8"); b.setupInput(0, "uint8"); auto t = Topology::make(); bool first = sx_pick("first", 0, 1); if (first) t->connect(a, 0, b, 0);
    switch (choose("bad", 0, 7)) { case 0: sx_assert(refused([&] { t->connect(a, "x", b, "0"); }), "an unknown output is refused"); break; case 1: sx_assert(refused([&] { t->connect(a, "0", b, "x"); }), "an unknown input is refused"); break; case 2: sx_assert(refused([&] { t->connect(b, "0", a, "0"); }), "inputs and outputs are not confused"); break; case 3: sx_assert(refused([&] { t->_connect(Object(1), "0", Object(&b), "0"); }), "something that is no block is refused"); break;
    case 4: sx_assert(refused([&] { t->disconnect(a, "x", b, "0"); }), "an unknown output is refused"); break; case 5: t->connect(t, "in", b, 0); sx_assert(refused([&] { t->connect(t, "in", b, 0); }) && t->inputPortInfo().size() == 1, "a connection to the outside cannot be made twice"); t->disconnect(t, "in", b, 0); sx_assert(t->inputPortNames().size() == 0, "a port of the topology goes with its last connection"); break;
    case 6: t->connect(a, 0, t, "out"); t->connect(a, 0, t, "out2"); sx_assert(t->outputPortInfo().size() == 2 && t->outputPortInfo()[0].name == "out", "ports of the topology"); t->disconnect(a, 0, t, "out"); sx_assert(t->outputPortInfo().size() == 1 && t->outputPortInfo()[0].name == "out2", "a port of the topology goes with its last connection"); break;
    default: t->connect(t, "in", t, "out"); sx_assert(t->inputPortInfo().size() == 1 && t->outputPortInfo().size() == 1, "a pass-through has both ports"); t->disconnect(t, "in", t, "out"); sx_assert(t->inputPortNames().empty() && t->outputPortNames().empty(), "a pass-through can be disconnected"); }
    t->commit(); sx_assert(a.isActive() == first && b.isActive() == first, "a refused connection has no effect"); deliver({ { &a, "0" } }, { { &b, "0" } }, { { first } }, "a refused connection has no effect"); } sx_cover("end"); }
// disconnecting everything, with and without the topologies inside
SX_HARNESS(h_topo_all) { sx_opt("fifo", 1); { L a, b; a.setupOutput(0, "uint8"); b.setupInput(0, "uint8"); auto t = Topology::make(), s = Topology::make(), q = Topology::make(); unsigned deep = (unsigned)sx_pick("levels", 1, 3); bool rec = choose("recursive", 0, 1), comm = choose("committed", 0, 1);
    auto &in = deep == 1 ? t : deep == 2 ? s : q; if (deep >= 2) in->connect(in, "in", b, 0); if (deep == 3) s->connect(s, "in", q, "in"); if (deep == 1) t->connect(a, 0, b, 0); else t->connect(a, 0, s, "in"); if (choose("out", 0, 1)) t->connect(a, 0, t, "out"); if (comm) t->commit();
    t->disconnectAll(rec); sx_assert(t->inputPortNames().empty() && t->outputPortNames().empty() && t->outputPortInfo().empty(), "the ports of a topology go with its connections"); if (deep >= 2) sx_assert(s->inputPortNames().empty() == rec, "topologies inside are disconnected when asked"); if (deep == 3) sx_assert(q->inputPortNames().empty() == rec, "topologies inside are disconnected when asked");
    t->commit(); sx_assert(!a.isActive() && !b.isActive() && a.on == comm && a.off == comm, "nothing is left in the design"); deliver({ { &a, "0" } }, { { &b, "0" } }, { { 0 } }, "nothing is left in the design");
    if (deep == 2 && !rec) { t->connect(a, 0, s, "in"); t->commit(); deliver({ { &a, "0" } }, { { &b, "0" } }, { { 1 } }, "a topology can be used again"); sx_cover("again"); } } sx_cover("end"); }
/* ------------------------------------------------------------ C28: hierarchies */
// flows between leaf blocks and sub-topologies; the oracle follows the paths
struct Net { struct Nd { const void *o; std::string p; bool in; bool operator<(const Nd &x) const { return o != x.o ? o < x.o : p != x.p ? p < x.p : in < x.in; } }; std::multimap<Nd, Nd> e; // edges; topology ports have the same node on both sides
    template <typename S, typename D> void add(Topology &t, S &s, const char *sp, D &d, const char *dp) { t.connect(s, sp, d, dp); edge(key(s), sp, key(d), dp); }
    static const void *key(const B &b) { return (const Connectable *)&b; } static const void *key(const std::shared_ptr<Topology> &t) { return t.get(); }
    void edge(const void *s, const char *sp, const void *d, const char *dp) { e.insert({ Nd{ s, sp, false }, Nd{ d, dp, false } }); }
    int paths(const void *s, const std::string &sp, const void *d, const std::string &dp, int depth = 0) { if (depth > 8) return 100; int n = 0; auto r = e.equal_range(Nd{ s, sp, false }); for (auto it = r.first; it != r.second; ++it) { auto &x = it->second; if (x.o == d && x.p == dp) n++; else n += paths(x.o, x.p, d, dp, depth + 1); } return n; } };
struct In : L { In() { setupInput("i", "uint8"); } }; struct Out : L { Out() { setupOutput("o", "uint8"); } }; struct Mid : L { Mid() { setupInput("i", "uint8"); setupOutput("o", "uint8"); } };
static void verify(Net &n, std::vector<B *> srcs, std::vector<B *> dsts, Topology &top) { std::vector<End> o, i; std::vector<std::vector<int>> want; bool dup = false; for (B *s : srcs) { o.push_back({ s, "o" }); want.emplace_back(); for (B *d : dsts) { int p = n.paths(Net::key(*s), "o", Net::key(*d), "i"); if (p > 1) dup = true; want.back().push_back(p); } } for (B *d : dsts) i.push_back({ d, "i" });
    if (dup) { sx_cover("twice"); return; } top.commit(); deliver(o, i, want, "messages go exactly where the paths through the hierarchy lead"); }
// a port of a topology that leads to several blocks, some of them deeper inside, from one or two sources
SX_HARNESS(h_hier_fan) { sx_opt("fifo", 1); { Out a, a2; In b, c, d, e; auto top = Topology::make(), p = Topology::make(), s = Topology::make(), q = Topology::make(); Net n; unsigned m = (unsigned)sx_pick("inner", 1, 11), src = choose("sources", 2, 3); bool rev = choose("order", 0, 1);
    if (!m) { sx_cover("end"); return; } if (m >= 4) n.add(*q, q, "in", d, "i"); if (m >= 8) n.add(*q, q, "in", e, "i");
    for (int k = 0; k < 3; k++) switch (rev ? 2 - k : k) { case 0: if (m & 1) n.add(*s, s, "in", b, "i"); break; case 1: if (m & 2) n.add(*s, s, "in", c, "i"); break; default: if (m >= 4) n.add(*s, s, "in", q, "in"); }
    if (src & 1) n.add(*p, a, "o", p, "out"); if (src & 2) n.add(*p, a2, "o", p, "out"); n.add(*top, p, "out", s, "in"); if (m != 1 && m != 2 && m != 4) sx_cover("several"); verify(n, { &a, &a2 }, { &b, &c, &d, &e }, *top); } sx_cover("end"); }
// one sub-topology with a block inside
SX_HARNESS(h_hier_one) { sx_opt("fifo", 1); { Out a; In b; Mid m; auto top = Topology::make(), s = Topology::make(); Net n; unsigned w = (unsigned)sx_pick("inner", 1, 7), u = choose("outer", 1, 7);
    if (w & 1) n.add(*s, s, "in", m, "i"); if (w & 2) n.add(*s, m, "o", s, "out"); if (w & 4) n.add(*s, s, "in", s, "out");
    if ((u & 1) && (w & 5)) n.add(*top, a, "o", s, "in"); if ((u & 2) && (w & 6)) n.add(*top, s, "out", b, "i"); if (u & 4) n.add(*top, a, "o", b, "i");
    verify(n, { &a, &m }, { &b, &m }, *top); if (n.paths(Net::key(a), "o", Net::key(b), "i") == 1 && (w & 4)) sx_cover("through"); } sx_cover("end"); }
// two sub-topologies in a row, one of them possibly inside a third; blocks that connect in the middle
SX_HARNESS(h_hier_chain) { sx_opt("fifo", 1); { Out a, c; In b, d; auto top = Topology::make(), s1 = Topology::make(), s2 = Topology::make(), s0 = Topology::make(); Net n; bool deepT = choose("nested", 0, 1); unsigned u = (choose("flows", 0, 7) << 2) | (unsigned)sx_pick("flows", 0, 3);
    n.add(*s1, s1, "in", s1, "out"); n.add(*s2, s2, "in", s2, "out"); auto &e1 = deepT ? s0 : s1; if (deepT) { n.add(*s0, s0, "in", s1, "in"); n.add(*s0, s1, "out", s0, "out"); }
    if (u & 1) n.add(*top, a, "o", e1, "in"); if (u & 2) n.add(*top, e1, "out", s2, "in"); if (u & 4) n.add(*top, s2, "out", b, "i"); if (u & 8) n.add(*top, c, "o", s2, "in"); if (u & 16) n.add(*top, e1, "out", d, "i");
    verify(n, { &a, &c }, { &b, &d }, *top); } sx_cover("end"); }
// connections of a hierarchy change between commits
SX_HARNESS(h_hier_change) { sx_opt("fifo", 1); { Out a; In b; Mid m; auto top = Topology::make(), s = Topology::make(); Net n; n.add(*s, s, "in", m, "i"); n.add(*s, m, "o", s, "out"); n.add(*top, a, "o", s, "in"); n.add(*top, s, "out", b, "i"); if (sx_pick("first", 0, 1)) verify(n, { &a, &m }, { &b, &m }, *top);
    auto del = [&](Topology &t, auto &x, const char *xp, auto &y, const char *yp) { t.disconnect(x, xp, y, yp); auto r = n.e.equal_range(Net::Nd{ Net::key(x), xp, false }); for (auto it = r.first; it != r.second; ++it) if (it->second.o == Net::key(y) && it->second.p == yp) { n.e.erase(it); break; } };
    for (unsigned i = 0; i < 2; i++) { switch (choose("change", 0, 4)) { case 0: if (n.paths(Net::key(s), "in", Net::key(m), "i")) del(*s, s, "in", m, "i"); else n.add(*s, s, "in", m, "i"); break; case 1: if (n.paths(Net::key(m), "o", s.get(), "out")) del(*s, m, "o", s, "out"); else n.add(*s, m, "o", s, "out"); break; case 2: if (n.paths(Net::key(a), "o", s.get(), "in")) { if (s->inputPortNames().size()) del(*top, a, "o", s, "in"); } else if (s->inputPortNames().size()) n.add(*top, a, "o", s, "in"); break; case 3: if (!n.paths(Net::key(a), "o", Net::key(b), "i")) n.add(*top, a, "o", b, "i"); break; default: verify(n, { &a, &m }, { &b, &m }, *top); sx_cover("again"); } }
    verify(n, { &a, &m }, { &b, &m }, *top); } sx_cover("end"); }
// a stream through a hierarchy: amounts and contents symbolic
static size_t sent, gone, arrived, followed; static uint8_t value;
SX_HARNESS(h_hier_stream) { sx_opt("fifo", 1); { Out a; In b; Mid m; sent = gone = arrived = 0; followed = sx_range("followed", 0, 15); value = sx_u8("value"); auto top = Topology::make(), s = Topology::make(); bool mid = sx_pick("middle", 0, 1); if (mid) { s->connect(s, "in", m, "i"); s->connect(m, "o", s, "out"); } else s->connect(s, "in", s, "out"); top->connect(a, "o", s, "in"); top->connect(s, "out", b, "i"); top->commit();
    for (int t = 0; t < (SX_DEEP ? 2 : 1); t++) { a.w = [&] { auto o = a.output("o"); size_t k = sx_range("produce", 1, 8); uint8_t *p = o->buffer().as<uint8_t *>(); sx_assert(o->elements() >= 8, "a committed output has buffers"); size_t x = sx_u64("scribble"); sx_assume(x < k); p[x] = uint8_t(~value); if (followed - sent < k) p[followed - sent] = value; sent += k; o->produce(k); }; a.run();
      if (mid) { m.w = [&] { auto i = m.input("i"); auto o = m.output("o"); size_t k = i->elements(); sx_assume(k <= 16); if (o->elements() < k) k = o->elements(); const uint8_t *p = i->buffer().as<const uint8_t *>(); uint8_t *q = o->buffer().as<uint8_t *>(); if (followed - gone < k) q[followed - gone] = p[followed - gone]; i->consume(k); o->produce(k); gone += k; }; m.run(); }
      b.w = [&] { auto i = b.input("i"); size_t k = i->elements(); if (followed - arrived < k) { sx_assert(i->buffer().as<const uint8_t *>()[followed - arrived] == value, "the stream arrives as it was sent"); sx_cover("seen"); } i->consume(k); arrived += k; }; b.run(); }
    sx_assert(arrived == sent, "the whole stream arrives"); } sx_cover("end"); }
