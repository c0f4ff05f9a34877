// Managed classes and proxies (C34): lookup, dispatch to the right member, containers.
#include "symx.h"
#include <Pothos/Managed.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Object/Containers.hpp>
#include <sstream>
using namespace Pothos;
static unsigned ran; static char who; static const void *self; static int64_t a0, a1; static size_t na; static std::string as; static int alive;
static void log(char w, const void *s, size_t n, int64_t x = 0, int64_t y = 0) { ran++; who = w; self = s; na = n; a0 = x; a1 = y; }
struct MB { int w; MB(int w) : w(w) {} int f(int x) { log('B', this, 1, x); return x - 1; } int inherited(int x) { log('I', this, 1, x); return w ^ x; } };
struct MD : MB { int v; int pad; MD(int v) : MB(v), v(v), pad(0) { alive++; } MD(int v, int p) : MB(v), v(v), pad(p) { alive++; } MD(const MD &o) : MB(o), v(o.v), pad(o.pad) { alive++; } ~MD() { alive--; }
    int one(int x) { log('1', this, 1, x); v = x; return x; } int two(int x, int y) { log('2', this, 2, x, y); return x ^ y; } int str(const std::string &s) { log('s', this, 1, (int)s.size()); as = s; return 7; } int zero() { log('0', this, 0); return v; }
    Object opaque(const Object *a, size_t n) { log('o', this, n, n ? (int64_t)(a[0].type() == typeid(int) ? a[0].extract<int>() : -1) : 0); return Object(int(n)); } Object wild(const std::string &name, const Object *a, size_t n) { log('w', this, n, n ? (int64_t)(a[0].type() == typeid(int) ? a[0].extract<int>() : -1) : 0); as = name; return Object(int(n + 10)); }
    static int st(int x) { log('t', 0, 1, x); return x + 1; } static Object so(const Object *, size_t n) { log('p', 0, n); return Object(int(n)); } static Object sw(const std::string &name, const Object *, size_t n) { log('x', 0, n); as = name; return Object(int(n)); }
    void fails(int x) { log('e', this, 1, x); throw RangeException("broken"); } MD *me() { log('m', this, 0); return this; } void take(MD &o) { log('T', this, 1); o.v = v; } };
template <typename F> static int raised(const F &f) { try { f(); } catch (const ProxyHandleCallError &) { return 1; } catch (const ProxyExceptionMessage &) { return 2; } catch (const ManagedClassLookupError &) { return 3; } catch (const ProxyEnvironmentFindError &) { return 4; } catch (const ManagedClassTypeError &) { return 6; } catch (const Exception &) { return 5; } return 0; }
struct Fix { ProxyEnvironment::Sptr env; Fix() : env(ProxyEnvironment::make("managed")) { ran = 0; who = 0; self = nullptr; alive = 0; as.clear(); } };
// an instance held by value, by pointer or by a shared pointer
struct Inst { std::unique_ptr<MD> own; Proxy p; const MD *ptr; Inst(Fix &f, int v) { switch (sx_pick("held", 0, 2)) { case 0: p = f.env->convertObjectToProxy(Object::emplace<MD>(v)); ptr = &std::dynamic_pointer_cast<ProxyHandle>(p.getHandle())->getEnvironment()->convertProxyToObject(p).extract<MD>(); break; case 1: own.reset(new MD(v)); ptr = own.get(); p = f.env->convertObjectToProxy(Object(own.get())); break; default: { auto s = std::make_shared<MD>(v); ptr = s.get(); p = f.env->convertObjectToProxy(Object(s)); } } } };
// every set of members called f, and every kind of call
SX_HARNESS(h_mg_call) { Fix fx; { int x = (int)sx_u32("x"), y = (int)sx_u32("y"), v = (int)sx_u32("v"); unsigned m = (unsigned)sx_pick("overloads", 0, 15); bool op = sx_pick("opaque", 0, 1), wild = sx_pick("wildcard", 0, 1), base = sx_pick("base", 0, 1); unsigned kind = (unsigned)sx_pick("call", 0, 4);
    ManagedClass c; c.registerConstructor<MD, int>(); if (base) c.registerBaseClass<MD, MB>(); if (m & 1) c.registerMethod("f", &MD::one); if (m & 2) c.registerMethod("f", &MD::two); if (m & 4) c.registerMethod("f", &MD::str); if (m & 8) c.registerMethod("f", &MD::zero); if (op) c.registerOpaqueMethod("f", Callable(&MD::opaque)); if (wild) c.registerWildcardMethod(Callable(&MD::wild)); c.registerMethod("g", &MD::zero); c.commit("sx/MD");
    ManagedClass b; b.registerConstructor<MB, int>().registerMethod("f", &MB::f).registerMethod("inherited", &MB::inherited); b.commit("sx/MB");
    Inst in(fx, v); char own = kind == 0 ? ((m & 8) ? '0' : 0) : kind == 1 || kind == 4 ? ((m & 1) ? '1' : 0) : kind == 2 ? ((m & 2) ? '2' : 0) : ((m & 4) ? 's' : 0); bool baseHas = base && (kind == 1 || kind == 4);
    // with a wildcard handler the base class comes first, and what it hides is left open
    bool open = wild && baseHas && (own || op); char want = own ? own : op && !(wild && baseHas) ? 'o' : baseHas ? 'B' : wild ? 'w' : 0;
    Proxy r; Object so; long long big = sx_u64("big"); bool fitsInt = big == (int)big; if (kind == 4) x = (int)big; int e = raised([&] { switch (kind) { case 0: r = in.p.call("f"); break; case 1: r = in.p.call("f", x); break; case 2: r = in.p.call("f", x, y); break; case 3: r = in.p.call("f", std::string("text")); break; default: r = in.p.call("f", big); } });
    if (kind == 4 && !fitsInt) { if (want == 'o' || want == 'w') { if (!open) sx_assert(e == 0 && ran == 1 && who == want, "the handler gets the arguments as they are"); } else sx_assert(e != 0 && ran == 0, "an argument out of range does not reach the method"); sx_cover("range"); }
    else if (open) { sx_assert(e == 0 && ran == 1, "one method is called"); }
    else if (!want) { sx_assert(e == 1 && ran == 0, "a call that matches nothing is refused"); sx_cover("refused"); }
    else { sx_assert(e == 0 && ran == 1 && who == want, "the member that matches the arguments is called, once"); sx_assert(self == (want == 'B' ? (const void *)static_cast<const MB *>(in.ptr) : (const void *)in.ptr), "the call works on the instance behind the proxy");
        int res = r.convert<int>(); size_t n = kind == 0 ? 0 : kind == 2 ? 2 : 1; sx_assert(na == n, "it gets all of the arguments");
        switch (want) { case '0': sx_assert(res == v, "the result comes back"); break; case '1': sx_assert(a0 == x && res == x && in.ptr->v == x, "the method gets the argument, changes the instance and returns the result"); break; case '2': sx_assert(a0 == x && a1 == y && res == (x ^ y), "the arguments keep their order"); break; case 's': sx_assert(as == "text" && res == 7, "a string is passed"); break; case 'B': sx_assert(a0 == x && res == x - 1, "an inherited method works"); break; case 'o': sx_assert(res == (int)n && ((kind != 1 && kind != 2) || a0 == x), "the opaque method gets the arguments"); break; case 'w': sx_assert(as == "f" && res == (int)n + 10 && ((kind != 1 && kind != 2) || a0 == x), "the wildcard method gets the name and the arguments"); break; }
        sx_cover("called"); if (want == 'B') sx_cover("base"); if (want == 'w') sx_cover("wild"); }
    ran = 0; sx_assert(in.p.call<int>("g") == in.ptr->v && ran == 1 && who == '0', "other methods are still reached"); ManagedClass::unload("sx/MD"); ManagedClass::unload("sx/MB"); } sx_assert(alive == 0, "every instance is destroyed once"); sx_cover("end"); }
// constructors, static methods, new and shared, fields, exceptions, instances as arguments
SX_HARNESS(h_mg_class) { Fix fx; { int x = (int)sx_u32("x"), y = (int)sx_u32("y"); bool so = sx_pick("opaque", 0, 1), sw = sx_pick("wildcard", 0, 1); ManagedClass c; c.registerConstructor<MD, int>().registerConstructor<MD, int, int>().registerStaticMethod("st", &MD::st).registerField("v", &MD::v).registerMethod("fails", &MD::fails).registerMethod("me", &MD::me).registerMethod("take", &MD::take); if (so) c.registerOpaqueStaticMethod("st", Callable(&MD::so)); if (sw) c.registerWildcardStaticMethod(Callable(&MD::sw)); c.commit("sx/MD");
    sx_assert(raised([&] { fx.env->findProxy("sx/none"); }) == 4, "an unknown class is not found"); Proxy cls = fx.env->findProxy("sx/MD");
    switch (sx_pick("what", 0, 7)) {
    case 0: { Proxy a = cls(x), b = cls(x, y); sx_assert(a.get<int>("v") == x && b.get<int>("v") == x && b.convert<MD>().pad == y, "constructors are chosen by their arguments"); sx_assert(raised([&] { cls(x, y, x); }) == 1 && raised([&] { cls("text"); }) == 1 && raised([&] { cls(); }) == 1, "there is no other constructor"); a.set("v", y); sx_assert(a.get<int>("v") == y && b.get<int>("v") == x, "a field belongs to its instance"); break; }
    case 1: { Proxy a = cls.call("new", x); sx_assert(alive == 1 && a.get<int>("v") == x, "new makes an instance"); a.set("v", y); sx_assert(a.convert<MD *>()->v == y, "the pointer refers to it"); a.call("delete"); sx_assert(alive == 0, "delete destroys it"); break; }
    case 2: { { Proxy a = cls.call("shared", x); Proxy b = a; sx_assert(alive == 1, "shared makes one instance"); b.set("v", y); sx_assert(a.get<int>("v") == y, "it is shared"); } sx_assert(alive == 0, "the last proxy destroys it"); break; }
    case 3: { sx_assume(x != 2147483647); sx_assert(cls.call<int>("st", x) == x + 1 && who == 't' && ran == 1 && a0 == x, "a static method is called once"); ran = 0; int e = raised([&] { cls.call("st", x, y); }); if (so) sx_assert(e == 0 && who == 'p' && na == 2 && ran == 1, "the opaque static method takes the rest"); else if (sw) sx_assert(e == 0 && who == 'x' && as == "st" && na == 2 && ran == 1, "the wildcard static method takes the rest"); else sx_assert(e == 1 && ran == 0, "other arguments are refused"); ran = 0; e = raised([&] { cls.call("other"); }); sx_assert(sw ? e == 0 && who == 'x' && as == "other" && na == 0 && ran == 1 : e == 1 && ran == 0, "an unknown static method is refused, or taken by the wildcard method"); break; }
    case 4: { Proxy a = cls(x); std::string msg; try { a.call("fails", y); sx_assert(false, "an exception is reported"); } catch (const ProxyExceptionMessage &ex) { msg = ex.message(); } sx_assert(msg.find("broken") != std::string::npos && ran == 1 && a0 == y, "the exception of a method reaches the caller with its message"); sx_assert(a.get<int>("v") == x, "the instance can still be used"); sx_assert(raised([&] { a.call("none"); }) == 1, "an unknown method is refused"); break; }
    case 5: { Proxy a = cls(x), b = cls(y); a.call("take", b); sx_assert(b.get<int>("v") == x && a.get<int>("v") == x, "an instance passed as an argument is the one that changes"); Proxy m = a.call("me"); m.set("v", y); sx_assert(a.get<int>("v") == y, "a returned pointer refers to the instance"); break; }
    case 6: { Proxy i = fx.env->makeProxy(x); sx_assert(raised([&] { i.call("foo"); }) == 3 || sw, "a type which is not managed has no calls"); Object o(x); sx_assert(o.canConvert(typeid(MD)), "a constructor with one argument is a conversion"); sx_assert(o.convert<MD>().v == x, "the conversion makes the instance"); break; }
    default: { struct Other { int q; Other(int q) : q(q) {} int m() { return q; } }; sx_assert(raised([&] { c.registerMethod("m", &Other::m); }) == 6 && raised([&] { c.registerConstructor(Callable::factory<Other, int>()); }) == 6, "members of another class are refused"); sx_assert(raised([&] { c.registerOpaqueMethod("m", Callable(&MD::one)); }) == 6 && raised([&] { c.registerWildcardMethod(Callable(&MD::opaque)); }) == 6 && raised([&] { c.registerOpaqueStaticMethod("m", Callable(&MD::st)); }) == 6, "handlers with other arguments are refused"); break; } }
    ManagedClass::unload("sx/MD"); } sx_assert(alive == 0, "every instance is destroyed once"); sx_cover("end"); }
// a class can be used between its registration and its removal
SX_HARNESS(h_mg_life) { Fix fx; { bool on[2] = {}; int x = (int)sx_u32("x"); Object objs[2][3] = { { Object::emplace<MB>(x), Object((MB *)nullptr), Object(std::shared_ptr<MB>()) }, { Object::emplace<MD>(x), Object((MD *)nullptr), Object(std::shared_ptr<MD>()) } };
    for (unsigned i = 0; i < (SX_DEEP ? 5 : 4); i++) { unsigned k = (unsigned)sx_pick("class", 0, 1); if (sx_pick("unload", 0, 1)) { int e = raised([&] { ManagedClass::unload(k ? "sx/MD" : "sx/MB"); }); sx_assert((e == 0) == on[k], "a class is removed exactly when it is registered"); if (on[k]) sx_cover("unloaded"); on[k] = false; } else { int e = raised([&] { ManagedClass c; if (k) c.registerConstructor<MD, int>().registerField("v", &MD::v); else c.registerConstructor<MB, int>().registerField("v", &MB::w); c.commit(k ? "sx/MD" : "sx/MB"); }); sx_assert((e == 0) == !on[k], "a class is registered once"); on[k] = true; }
      for (int q = 0; q < 2; q++) { for (auto &o : objs[q]) { int r = raised([&] { auto c = ManagedClass::lookup(o.type()); sx_assert(c.type() == objs[q][0].type() && c.pointerType() == objs[q][1].type() && c.sharedType() == objs[q][2].type(), "the class of the type is found"); }); sx_assert(r == (on[q] ? 0 : 3), "a type is found exactly while its class is registered"); }
        int r = raised([&] { fx.env->findProxy(q ? "sx/MD" : "sx/MB"); }); sx_assert(r == (on[q] ? 0 : 4), "a name is found exactly while its class is registered"); auto p = fx.env->convertObjectToProxy(objs[q][0]); int v = 0; r = raised([&] { v = p.get<int>("v"); }); sx_assert(on[q] ? r == 0 && v == x : r == 3, "calls work exactly while the class is registered"); if (r) sx_cover("refused");
        sx_assert(Object(x).canConvert(objs[q][0].type()) == on[q], "a constructor converts exactly while its class is registered"); } }
    for (int k = 0; k < 2; k++) if (on[k]) ManagedClass::unload(k ? "sx/MD" : "sx/MB"); } sx_assert(alive == 0, "every instance is destroyed once"); sx_cover("end"); }
// proxies of plain values: conversion, comparison, serialization
SX_HARNESS(h_mg_value) { Fix fx; if (sx_pick("what", 0, 1)) { int x = (int)sx_u32("x"), y = (int)sx_u32("y"); Proxy a = fx.env->makeProxy(x), b = fx.env->makeProxy(y), sa = fx.env->makeProxy((int)(signed char)x), sb = fx.env->makeProxy((int)(signed char)y), s = fx.env->makeProxy(std::string("str")); sx_assert(a && !Proxy() && a.convert<int>() == x && a.convert<long>() == x && a.toObject().extract<int>() == x, "a proxy gives back its value"); sx_assert(a == Proxy(a) && !(a == fx.env->makeProxy(x)) && !(a == Proxy()), "proxies are equal when they share a handle"); int c = sa.compareTo(sb); signed char l = (signed char)x, g = (signed char)y; sx_assert((c < 0) == (l < g) && (c > 0) == (l > g) && (sa < sb) == (l < g) && (sa > sb) == (l > g), "proxies order as their values do"); sx_assert(a.getEnvironment() == fx.env && fx.env->makeProxy(a).getEnvironment() == fx.env, "a proxy belongs to its environment");
    bool refused = false; try { a.compareTo(s); } catch (const ProxyCompareError &) { refused = true; } sx_assert(refused, "values without an order are refused"); refused = false; try { s.convert<int>(); } catch (const Exception &) { refused = true; } sx_assert(refused, "a value that does not convert is refused");
    } else { int x = (int)sx_u32("x"); Proxy a = fx.env->makeProxy(x); std::stringstream ss; Object(a).serialize(ss); Object o; o.deserialize(ss); sx_assert(o.type() == typeid(Proxy) && o.extract<Proxy>().convert<int>() == x, "a proxy survives serialization"); } sx_cover("end"); }
// containers of proxies
SX_HARNESS(h_mg_cont) { Fix fx; { unsigned n = (unsigned)sx_pick("n", 0, SX_DEEP ? 3 : 2); std::vector<int> v; for (unsigned i = 0; i < n; i++) v.push_back((int)sx_u32("v"));
    switch (sx_pick("what", 0, 4)) {
    case 0: { auto p = Object(v).convert<ProxyVector>(); sx_assert(p.size() == n, "every element becomes a proxy"); for (unsigned i = 0; i < n; i++) sx_assert(p[i].convert<int>() == v[i], "elements keep their order"); auto w = Object(p).convert<std::vector<int>>(); sx_assert(w == v, "and become numbers again"); bool fit = true; for (auto q : v) fit = fit && q >= -32768 && q <= 32767; bool ok = true; try { auto t = Object(p).convert<std::vector<short>>(); sx_assert(t.size() == n, "all of them"); for (unsigned i = 0; i < n; i++) sx_assert(t[i] == v[i], "unchanged"); } catch (const Exception &) { ok = false; } sx_assert(ok == fit, "a number that does not fit is refused"); if (!ok) sx_cover("refused"); break; }
    case 1: { ObjectVector o; for (auto x : v) o.push_back(Object(x)); auto p = Object(o).convert<ProxyVector>(); auto q = Object(p).convert<ObjectVector>(); sx_assert(p.size() == n && q.size() == n, "every element is kept"); for (unsigned i = 0; i < n; i++) sx_assert(p[i].convert<int>() == v[i] && q[i].extract<int>() == v[i], "elements keep their order"); break; }
    case 2: { ObjectSet o; std::set<int> d(v.begin(), v.end()); for (auto x : v) o.insert(Object(x)); auto p = Object(o).convert<ProxySet>(); auto q = Object(p).convert<ObjectSet>(); sx_assert(o.size() == d.size() && p.size() == d.size() && q.size() == d.size(), "a set keeps every value once"); for (auto x : d) { bool f = false; for (auto &z : q) f = f || z.extract<int>() == x; sx_assert(f, "every value is there"); } break; }
    case 3: { ObjectMap o; std::map<int, int> d; int k = 0; for (auto x : v) { o[Object(x)] = Object(k); d[x] = k++; } auto p = Object(o).convert<ProxyMap>(); auto q = Object(p).convert<ObjectMap>(); sx_assert(p.size() == d.size() && q.size() == d.size(), "a map keeps every key once"); for (auto &e : d) { auto it = q.find(Object(e.first)); sx_assert(it != q.end() && it->second.extract<int>() == e.second, "every key keeps its value"); } break; }
    default: { ObjectKwargs kw; const char *N[] = { "b", "a", "c" }; for (unsigned i = 0; i < n; i++) kw[N[i]] = Object(v[i]); auto m = Object(kw).convert<ObjectMap>(); auto p = Object(m).convert<ProxyMap>(); auto k2 = Object(p).convert<ObjectKwargs>(); auto k3 = Object(m).convert<ObjectKwargs>(); sx_assert(m.size() == n && p.size() == n && k2.size() == n && k3.size() == n, "keyword arguments keep every key"); for (unsigned i = 0; i < n; i++) sx_assert(k2.at(N[i]).extract<int>() == v[i] && k3.at(N[i]).extract<int>() == v[i], "every key keeps its value"); } } } sx_cover("end"); }
