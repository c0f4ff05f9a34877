// Calls: Pothos::Callable (C22), the calls, slots and ports of a block (C30, C35).
#include "ports.hpp"
#include <Pothos/Callable.hpp>
#include <Pothos/Object/Containers.hpp>
/* ------------------------------------------------------------ C22 */
static unsigned called; static int got[4]; static long out;
static long f3(int a, int b, int c) { called++; got[0] = a; got[1] = b; got[2] = c; return out; }
static long g3(int a, long b, long long c) { called++; got[0] = a; got[1] = (int)b; got[2] = (int)c; return out; } static const std::type_info *const G3[] = { &typeid(int), &typeid(long), &typeid(long long) };
template <typename F> static int raised(const F &f) { try { f(); } catch (const CallableArgumentError &) { return 1; } catch (const CallableNullError &) { return 2; } catch (const CallableReturnError &) { return 3; } catch (const Exception &) { return 4; } return 0; }
static Object arg(const char *n, int64_t &v) { switch (sx_pick("argtype", 0, 2)) { case 0: { int x = (int)sx_u32(n); v = x; return Object(x); } case 1: { short x = (short)sx_u16(n); v = x; return Object(x); } default: { unsigned x = sx_u32(n); v = x; return Object(x); } } }
static bool fits(int64_t v) { return v == (int)v; }
// any sequence of bind and unbind, then a call with any number of arguments
SX_HARNESS(h_call_bind) { { called = 0; out = (long)sx_u64("out"); Callable c(&g3); bool bound[5] = {}; int64_t val[5] = {}; Callable first(c);
    unsigned nb = (unsigned)sx_pick("bindings", 0, SX_DEEP ? 3 : 2); for (unsigned i = 0; i < nb; i++) { size_t at = sx_pick("at", 0, 3); if (sx_pick("unbind", 0, 1)) { c.unbind(at); bound[at] = false; } else { int x = (int)sx_u32("bound"); c.bind(x, at); bound[at] = true; val[at] = x; sx_cover("bound"); } }
    size_t need = 3 - bound[0] - bound[1] - bound[2]; sx_assert(c.getNumArgs() == need, "getNumArgs() counts the arguments that are not bound"); sx_assert(first.getNumArgs() == 3, "binding an argument does not affect other copies");
    { int k = 0; for (int i = 0; i < 3; i++) if (!bound[i]) { sx_assert(c.type(k) == *G3[i], "the argument types are those of the arguments that are not bound"); k++; } } sx_assert(c.type(-1) == typeid(long), "the return type is that of the function"); sx_assert(raised([&] { c.type((int)need); }) == 1 && raised([&] { c.type(-2); }) == 1, "there are no other arguments");
    size_t n = sx_pick("given", 0, 4); int64_t v[4]; Object a[4]; for (size_t i = 0; i < n; i++) { int x = (int)sx_u32("arg"); v[i] = x; a[i] = Object(x); }
    Object r; int e = raised([&] { r = c.opaqueCall(a, n); });
    if (n < need) { sx_assert(e == 1 && called == 0, "a call with too few arguments is refused"); sx_cover("few"); }
    else { sx_assert(e == 0 && called == 1, "the function is called once"); size_t k = 0; bool ok = true; for (int i = 0; i < 3; i++) ok = ok & (got[i] == (bound[i] ? val[i] : v[k++])); sx_assert(ok, "bound values and arguments reach the function in their places"); sx_assert(r.type() == typeid(long) && r.extract<long>() == out, "the result is returned"); sx_cover("called"); } } sx_cover("end"); }
// arguments of other types are converted or refused
SX_HARNESS(h_call_conv) { { called = 0; out = 0; Callable c(&f3); int64_t v[3]; Object a[3]; size_t w = sx_pick("which", 0, 2); bool b = sx_pick("bind", 0, 1); for (size_t i = 0; i < 3; i++) if (i == w) a[i] = arg("arg", v[i]); else { int x = (int)sx_u32("plain"); v[i] = x; a[i] = Object(x); }
    if (sx_pick("alien", 0, 5) == 5) { a[w] = Object(std::string("x")); sx_assert(raised([&] { c.opaqueCall(a, 3); }) == 1 && called == 0, "an argument that cannot be converted is refused"); a[w] = Object(); sx_assert(raised([&] { c.opaqueCall(a, 3); }) == 1 && called == 0, "a null argument is refused"); sx_cover("refused"); }
    else { if (b) { c.bind(a[w], w); Object o[2]; size_t k = 0; for (size_t i = 0; i < 3; i++) if (i != w) o[k++] = a[i]; int e = raised([&] { c.opaqueCall(o, 2); }); sx_assert((e == 0) == fits(v[w]) && e != 2 && e != 3, "a bound value is converted or refused"); if (e) sx_cover("range"); }
      else { int e = raised([&] { c.opaqueCall(a, 3); }); sx_assert((e == 0) == fits(v[w]) && e != 2 && e != 3, "an argument is converted or refused"); if (e) sx_cover("range"); }
      if (fits(v[w])) sx_assert(called == 1 && (got[0] == v[0]) & (got[1] == v[1]) & (got[2] == v[2]), "the function gets the values of the arguments"); else sx_assert(called == 0, "a refused call does not reach the function"); } } sx_cover("end"); }
// methods, constructors, functions with references, strings and results of every kind
static int alive; struct K { int v; unsigned n; K(int v) : v(v), n(0) { alive++; } K(const K &o) : v(o.v), n(o.n) { alive++; } K(K &&o) : v(o.v), n(o.n) { alive++; } ~K() { alive--; } int add(int x) { n++; v += x; return v; } int get() const { return v; } int &ref() { return v; } void set(const std::string &s, const int &x) { v = x + (int)s.size(); } static int both(const K &a, K &b) { b.n++; return a.v ^ b.v; } };
static void refArg(int &x, const unsigned &y) { called++; x += (int)y; } static int none() { called++; return got[0]; }
SX_HARNESS(h_call_kinds) { alive = 0; { called = 0; int v = (int)sx_u32("v"), x = (int)sx_u32("x"); sx_assume(v > -1000000 && v < 1000000 && x > -1000000 && x < 1000000);
    switch (sx_pick("kind", 0, 7)) {
    case 0: { Object o = Object::emplace<K>(v); Callable c(&K::add); sx_assert(c.getNumArgs() == 2 && c.type(0) == typeid(K) && c.type(1) == typeid(int) && c.type(-1) == typeid(int), "a method takes the instance first"); sx_assert(c.call<int>(o, x) == v + x && o.ref<K>().v == v + x && o.ref<K>().n == 1, "a method works on the instance it is given"); break; }
    case 1: { K k(v); Callable c(&K::add); sx_assert(c.call<int>(std::ref(k), x) == v + x && k.v == v + x, "an instance given by reference is the one that changes"); Callable g(&K::get); sx_assert(g.call<int>(std::ref(k)) == v + x, "a const method reads the instance"); break; }
    case 2: { K k(v); Callable c(&K::ref); Object r = c.callObject(std::ref(k)); r.ref<int>() = x; sx_assert(k.v == x, "a returned reference refers to the original"); break; }
    case 3: { K k(v); Callable c(&K::set); c.callVoid(std::ref(k), "abc", x); sx_assert(k.v == x + 3, "strings and const references are passed"); Callable b(&K::both); K q(x); sx_assert(b.call<int>(k, std::ref(q)) == (k.v ^ x) && q.n == 1, "two instances are kept apart"); break; }
    case 4: { Callable c = Callable::factory<K, int>(); sx_assert(c.type(-1) == typeid(K) && c.getNumArgs() == 1, "a constructor returns the class"); Object o = c.callObject(v); sx_assert(o.extract<K>().v == v && alive == 1, "a constructor makes one instance"); break; }
    case 5: { Object o = Callable::factoryNew<K, int>().callObject(v); sx_assert(o.extract<K *>()->v == v && alive == 1, "new makes one instance"); delete o.extract<K *>(); o = Callable::factoryShared<K, int>().callObject(v); auto s = o.extract<std::shared_ptr<K>>(); sx_assert(s->v == v && alive == 1, "a shared instance is made"); break; }
    case 6: { int y = v; unsigned z = (unsigned)x; Callable c(&refArg); c.callVoid(std::ref(y), z); sx_assert(y == v + x && called == 1, "an argument taken by reference is changed in place"); Callable b(c); b.bind(std::ref(y), 0); b.callVoid(z); sx_assert(y == v + x + x, "a bound reference is changed in place"); break; }
    default: { got[0] = v; Callable c(&none); sx_assert(c.getNumArgs() == 0 && c.call<int>() == v, "a function without arguments"); Callable l(std::function<int(int)>([v](int q) { return q - v; })); sx_assert(l.call<int>(x) == x - v, "a function object"); break; } }
    } sx_assert(alive == 0, "every instance is destroyed once"); sx_cover("end"); }
SX_HARNESS(h_call_null) { { Callable n; sx_assert(!n && raised([&] { n.opaqueCall(nullptr, 0); }) == 2 && raised([&] { n.getNumArgs(); }) == 2 && raised([&] { n.type(-1); }) == 2, "a null callable refuses every use"); Callable c(&f3), d(c); sx_assert(c && c == d && !(c == n), "copies are equal, others are not"); d.bind(1, 0); sx_assert(!(c == d), "a binding makes a difference");
    out = (long)sx_u64("out"); int r = 0, one = 1; int e = raised([&] { r = c.call<int>(one, one, one); }); sx_assert(out == (int)out ? e == 0 && r == out : e == 3, "a result is converted or the error reported"); if (e) sx_cover("refused"); bool threw = false; called = 0; Callable t(std::function<int(int)>([](int x) -> int { throw NotFoundException("n"); })); try { t.callVoid(1); } catch (const NotFoundException &) { threw = true; } sx_assert(threw, "an exception of the function reaches the caller"); } sx_cover("end"); }
/* ------------------------------------------------------------ C30: the ports of a block */
static const char *NM[] = { "0", "1", "3", "a", "b", "01", "10", "" };
template <typename F> static bool refused(const F &f) { try { f(); } catch (const PortAccessError &) { return true; } return false; }
struct PM { std::string name; int kind; bool automatic; size_t es; }; // kind: 0 stream, 1 slot or signal
static int idx(const std::string &n) { if (n.empty()) return -1; for (char c : n) if (c < '0' || c > '9') return -1; if (n.size() > 1 && n[0] == '0') return -1; return std::stoi(n); }
static std::vector<std::string> names(B &b, bool in) { return in ? b.inputPortNames() : b.outputPortNames(); }
template <bool IN> struct Side; template <> struct Side<true> { static InputPort *at(B &b, const std::string &n) { return b.input(n); } static InputPort *at(B &b, size_t i) { return b.input(i); } static const std::vector<InputPort *> &vec(B &b) { return b.inputs(); } static const std::map<std::string, InputPort *> &all(B &b) { return b.allInputs(); } static InputPort *setup(B &b, const std::string &n, const DType &d) { return b.setupInput(n, d); } static void reg(B &b, const std::string &n) { b.registerSlot(n); } static void autoA(B &b, const std::string &n) { b._actor->autoAllocateInput(n); } static void autoD(B &b, const std::string &n) { b._actor->autoDeleteInput(n); } static bool sig(InputPort *p) { return p->isSlot(); } static std::vector<PortInfo> info(B &b) { return b.inputPortInfo(); } static size_t ptrs(B &b) { return b.workInfo().inputPointers.size(); } };
template <> struct Side<false> { static OutputPort *at(B &b, const std::string &n) { return b.output(n); } static OutputPort *at(B &b, size_t i) { return b.output(i); } static const std::vector<OutputPort *> &vec(B &b) { return b.outputs(); } static const std::map<std::string, OutputPort *> &all(B &b) { return b.allOutputs(); } static OutputPort *setup(B &b, const std::string &n, const DType &d) { return b.setupOutput(n, d); } static void reg(B &b, const std::string &n) { b.registerSignal(n); } static void autoA(B &b, const std::string &n) { b._actor->autoAllocateOutput(n); } static void autoD(B &b, const std::string &n) { b._actor->autoDeleteOutput(n); } static bool sig(OutputPort *p) { return p->isSignal(); } static std::vector<PortInfo> info(B &b) { return b.outputPortInfo(); } static size_t ptrs(B &b) { return b.workInfo().outputPointers.size(); } };
template <bool IN> static void ports() { { B b; typedef Side<IN> S; std::vector<PM> m; auto find = [&](const std::string &n) { for (size_t i = 0; i < m.size(); i++) if (m[i].name == n) return (int)i; return -1; };
    for (unsigned i = 0; i < (SX_DEEP ? 4 : 3); i++) { std::string n = NM[sx_pick("name", 0, i < 2 ? 6 : 7)]; int at = find(n); size_t es = sx_pick("op", 0, 3); if (n.empty() && es > 1) continue;
      switch (es) {
      case 0: { size_t dim = sx_u8("dimension"); DType d("uint16", dim); bool r = refused([&] { auto p = S::setup(b, n, d); sx_assert(p == S::at(b, n), "setup returns the port"); }); sx_assert(r == (at >= 0 || n.empty()), "a port is set up exactly when its name is new and not empty"); if (!r) m.push_back({ n, 0, false, 2 * dim }); else sx_cover("refused"); break; }
      case 1: { bool r = refused([&] { S::reg(b, n); }); sx_assert(r == (at >= 0 || n.empty()), "a slot or signal is registered exactly when its name is new and not empty"); if (!r) m.push_back({ n, 1, false, 1 }); break; }
      case 2: { S::autoA(b, n); if (at < 0 && idx(n) >= 0) for (int k = idx(n) - 1; k >= 0; k--) { int q = find(std::to_string(k)); if (q >= 0) { m.push_back({ n, 0, true, m[q].es }); sx_cover("automatic"); break; } } break; }
      case 3: S::autoD(b, n); if (at >= 0 && m[at].automatic) { m.erase(m.begin() + at); sx_cover("deleted"); } break; }
      size_t top = 0; sx_assert(names(b, IN).size() == m.size() && S::all(b).size() == m.size() && S::info(b).size() == m.size(), "the port lists have exactly the ports of the block");
      for (size_t k = 0; k < m.size(); k++) { sx_assert(names(b, IN)[k] == m[k].name && S::info(b)[k].name == m[k].name, "ports are listed in the order they were set up"); auto p = S::at(b, m[k].name); sx_assert(p->name() == m[k].name && p->alias() == m[k].name && p->index() == idx(m[k].name) && S::all(b).at(m[k].name) == p, "a port has its name and index"); if (m[k].es != 1) sx_assert(p->dtype().size() == m[k].es && S::info(b)[k].dtype.size() == m[k].es, "a port has its type"); if (!m[k].automatic) sx_assert(S::sig(p) == (m[k].kind == 1) && S::info(b)[k].isSigSlot == (m[k].kind == 1), "a port has its kind");
        if (p->index() >= 0) { if (size_t(p->index()) >= top) top = p->index() + 1; sx_assert(S::at(b, size_t(p->index())) == p, "an indexed port is found by its index"); } }
      sx_assert(S::vec(b).size() == top && S::ptrs(b) >= top, "the vector of indexed ports reaches to the highest index"); for (size_t k = 0; k < top; k++) sx_assert((S::vec(b)[k] != nullptr) == (find(std::to_string(k)) >= 0), "the vector of indexed ports has exactly the indexed ports"); sx_assert(refused([&] { S::at(b, top); }) && refused([&] { S::at(b, std::string("zz")); }), "ports that do not exist are refused"); } }
    sx_cover("end"); }
SX_HARNESS(h_ports_in) { ports<true>(); }
SX_HARNESS(h_ports_out) { ports<false>(); }
// a name of any three bytes is a port name; only the text of a number is an index
SX_HARNESS(h_ports_name) { { B b; char n[4]; size_t len = sx_pick("len", 1, SX_DEEP ? 3 : 2); sx_bytes(n, len, "name"); unsigned k = (unsigned)sx_pick("first", 0, 3); unsigned char n0 = n[0]; sx_assume(k == 0 ? n0 > 0 && n0 < 48 : k == 1 ? n0 == 48 || n0 == 49 : k == 2 ? n0 > 49 && n0 < 58 : n0 >= 58); if (len > 1) sx_assume(n[1] != 0); if (len > 2) sx_assume(n[2] != 0); std::string s(n, len); b.setupInput(0, "uint8"); b.setupInput(12, "uint8"); bool taken = s == "0" || s == "12"; bool digits = true; for (size_t i = 0; i < len; i++) digits = digits & (n[i] >= '0') & (n[i] <= '9'); 
    InputPort *np = nullptr; bool r = refused([&] { np = b.setupInput(s, "uint16"); }); sx_assert(r == taken, "a port is set up exactly when its name is new"); sx_assert(b.input(size_t(0))->name() == "0" && b.input(12)->name() == "12", "setting up a port does not replace another"); if (!r) { int x = np->index(); if (digits && !(len > 1 && n[0] == '0')) { int v = 0; for (size_t i = 0; i < len; i++) v = v * 10 + (n[i] - '0'); sx_assert(x == v, "a number is the index"); sx_cover("index"); } else { sx_assert(x == -1, "other names have no index"); sx_cover("name"); } } } sx_cover("end"); }
SX_HARNESS(h_ports_huge) { { B b; b.setupInput(0, "uint8"); std::string s(10 + sx_pick("more", 0, 4) * 5, char('0' + sx_pick("digit", 1, 9))); b.setupInput(s, "uint8"); sx_assert(b.input(s)->name() == s && b.inputs().size() == 1 && b.inputPortNames().size() == 2, "a number too large for an index is only a name"); } sx_cover("end"); }
/* ------------------------------------------------------------ C35: the calls of a block */
struct C : B { unsigned n = 0, which = 0; int a = 0, b = 0; std::string s; void one(int x) { n++; which = 1; a = x; } void two(int x, int y) { n++; which = 2; a = x; b = y; } void str(const std::string &x) { n++; which = 3; s = x; } int ret(int x) const { return x ^ 7; } void priv(int x) { n++; which = 4; a = x; } void is(int x, const std::string &y) { n++; which = 4; a = x; s = y; } void si(const std::string &x, int y) { n++; which = 5; s = x; a = y; } };
template <typename F> static int blockErr(const F &f) { try { f(); } catch (const BlockCallNotFound &) { return 1; } catch (const CallableArgumentError &) { return 2; } catch (const Exception &) { return 3; } return 0; }
// overloads: the call whose arguments fit is made, once, with the values given
SX_HARNESS(h_block_call) { { C c; static const char *const par[] = { "i", "ii", "s", "is", "si" }, *const given[] = { "i", "ii", "s", "", "is", "si", "ss" }; unsigned set = (unsigned)sx_pick("overloads", 0, 31), how = (unsigned)sx_pick("how", 0, 6); unsigned order = (unsigned)sx_pick("order", 0, 1); for (unsigned k = 0; k < 5; k++) { unsigned m = order ? 4 - k : k; if (!(set >> m & 1)) continue; switch (m) { case 0: c.registerCall(&c, "f", &C::one); break; case 1: c.registerCall(&c, "f", &C::two); break; case 2: c.registerCall(&c, "f", &C::str); break; case 3: c.registerCall(&c, "f", &C::is); break; default: c.registerCall(&c, "f", &C::si); break; } }
    sx_assert(c.allInputs().count("f") == (set != 0), "a method without a result is a slot"); int v[2] = { (int)sx_u32("x"), (int)sx_u32("y") }; int e; unsigned want = 0; for (unsigned m = 0; m < 5; m++) if (set >> m & 1) { if (std::string(par[m]) == given[how]) want = m + 1; else if (set == 1u << m && std::string(given[how]).compare(0, strlen(par[m]), par[m]) == 0) want = m + 1; } // a single method ignores further arguments
    e = blockErr([&] { switch (how) { case 0: c.callVoid("f", v[0]); break; case 1: c.callVoid("f", v[0], v[1]); break; case 2: c.callVoid("f", "text"); break; case 3: c.callVoid("f"); break; case 4: c.callVoid("f", v[0], "text"); break; case 5: c.callVoid("f", "text", v[0]); break; default: c.callVoid("f", "text", "more"); break; } });
    if (want) { sx_assert(e == 0 && c.n == 1 && c.which == want, "the method that fits the arguments is called once"); sx_assert((want == 3 || c.a == v[0]) && (want != 2 || c.b == v[1]) && (want < 3 || c.s == "text"), "the method gets the arguments"); sx_cover("called"); } else { sx_assert(e != 0 && c.n == 0, "a call that fits no method is refused"); sx_cover("refused"); } sx_assert(blockErr([&] { c.callVoid("g", v[0]); }) == 1, "an unknown name is refused"); } sx_cover("end"); }
// results, private calls, signals called by name, probes
SX_HARNESS(h_block_probe) { { C c; B r, z; z.registerSignal("p"); z.registerSignal("o"); int x = (int)sx_u32("x"); c.registerCall(&c, "ret", &C::ret); c.registerCall(&c, "_priv", &C::priv); c.registerCall(&c, "one", &C::one); sx_assert(c.call<int>("ret", x) == (x ^ 7), "the result is returned"); c.callVoid("_priv", x); sx_assert(c.which == 4 && c.a == x, "private methods can be called"); sx_assert(c.allInputs().size() == 1 && c.allInputs().count("one") == 1, "only public methods without a result are slots");
    c.registerSlot("one"); sx_assert(c.allInputs().size() == 1, "naming an automatic slot again does nothing"); c.registerProbe("ret"); sx_assert(c.allInputs().count("probeRet") && c.allOutputs().count("retTriggered") && c.input("probeRet")->isSlot() && c.output("retTriggered")->isSignal(), "a probe has a slot and a signal"); c.registerSignal("sig"); r.setupInput("in"); r.setupInput("sin"); link(c, "retTriggered", r, "in"); link(c, "sig", r, "sin"); link(z, "p", c, "probeRet"); link(z, "o", c, "one"); c.on(); r.on(); z.on();
    unsigned what = (unsigned)sx_pick("what", 0, 3); if (what == 0) { z.emitSignal("p", x); c.run(); sx_assert(r.input("in")->hasMessage(), "a probe answers"); Object m = r.input("in")->popMessage(); sx_assert(m.type() == typeid(ObjectVector) && m.extract<ObjectVector>().size() == 1 && m.extract<ObjectVector>()[0].convert<int>() == (x ^ 7), "a probe answers with the result"); sx_assert(!r.input("in")->hasMessage(), "a probe answers once"); sx_cover("probed"); }
    else if (what == 1) { c.callVoid("sig", x, x); Object m = r.input("sin")->popMessage(); sx_assert(m.extract<ObjectVector>().size() == 2 && m.extract<ObjectVector>()[1].convert<int>() == x && !r.input("sin")->hasMessage(), "calling a signal emits it"); }
    else if (what == 2) { sx_assert(refused([&] { c.emitSignal("one", x); }) && refused([&] { c.emitSignal("nosuch", x); }), "only signals are emitted"); c.emitSignal("sig", x); sx_assert(r.input("sin")->popMessage().extract<ObjectVector>()[0].convert<int>() == x, "a signal carries its arguments"); }
    else { z.emitSignal("o", x); z.emitSignal("o", std::string("bad")); z.emitSignal("o", (short)x); c.run(); sx_assert(c.n == 3 && c.which == 1 && c.a == (short)x, "a slot runs its method for every signal; one that does not fit is skipped"); } } sx_cover("end"); }
// a call made by another thread never runs together with the work of the block
static C *G; static int inside, gsum; static unsigned gtotal;
struct X : C { void enter(int x) { sx_assert(inside == 0, "a call and the work of a block run at the same time"); inside = 1; gsum += x; __atomic_add_fetch(&gtotal, (unsigned)x, __ATOMIC_RELAXED); sx_sched(); inside = 0; } };
SX_HARNESS(h_block_excl) { inside = 0; gsum = 0; gtotal = 0; { X x; x.registerCall((X *)&x, "_enter", &X::enter); x.setupInput("in"); x.on(); x.w = [&] { x.enter((int)sx_u8("w")); if (x.input("in")->hasMessage()) x.input("in")->popMessage(); }; x.input("in")->pushMessage(Object(1)); int v = sx_u8("v");
    std::thread t([&] { for (int i = 0; i < 2; i++) x._actor->processTask(sx_pick("wait", 0, 1)); }), u([&] { x.callVoid("_enter", v); }); t.join(); u.join(); sx_assert((unsigned)gsum == gtotal, "an update is lost"); if (x.works) sx_cover("worked"); } sx_cover("end"); }
