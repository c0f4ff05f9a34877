#include "symx.h"
#include <Pothos/Plugin.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Callable.hpp>
#include <Pothos/Exception.hpp>
#include <Pothos/Plugin/Exception.hpp>
#include <Pothos/Managed.hpp>
#include <string>
#include <vector>
#include <map>
using namespace Pothos;
/* ------------------------------------------------------------ C23: plugin paths */
static bool okc(char c) { return (c >= 'A') & (c <= 'Z') | (c >= 'a') & (c <= 'z') | (c >= '0') & (c <= '9') | (c == '_') | (c == '-'); }
// "/" or one or more non-empty names, each after a slash
static bool valid(const std::string &s) { if (s.empty() || s[0] != '/') return false; if (s.size() == 1) return true; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '/') { if (i + 1 == s.size() || s[i + 1] == '/') return false; } else if (!okc(s[i])) return false; } return true; }
static std::string any(const char *n, unsigned lo, unsigned hi) { unsigned k = (unsigned)sx_pick(n, lo, hi); std::string s(k, 0); if (k) sx_bytes(&s[0], k, n); return s; }
SX_HARNESS(h_path) {
    std::string s = any("s", 0, SX_DEEP ? 5 : 4); for (char c : s) sx_assume(c != 0);
    try { PluginPath p = sx_pick("cstr", 0, 1) ? PluginPath(s.c_str()) : PluginPath(s); sx_assert(valid(s), "a malformed path is refused"); sx_assert(p.toString() == s, "the path is kept"); sx_cover("accepted");
        auto n = p.listNodes(); std::string j; for (auto &x : n) { sx_assert(!x.empty(), "no empty names"); j += "/" + x; } if (n.empty()) j = "/"; sx_assert(j == s, "the names between the slashes"); PluginPath q(p), r; r = p; sx_assert(q == p && r == p && !(q != p), "copies are equal"); }
    catch (const PluginPathError &) { sx_assert(!valid(s), "a well-formed path is accepted"); sx_cover("refused"); }
    sx_cover("end");
}
static const char *const tmpl[] = { "/", "/a", "/ab", "/a/b" };
SX_HARNESS(h_path_join) { // joining a name or a path to a valid path
    std::string b = tmpl[sx_pick("base", 0, 3)], s = any("s", 0, 3); for (char c : s) sx_assume(c != 0); PluginPath p(b); std::string w = b == "/" ? "/" + s : b + "/" + s; bool ok = valid(w); if (b == "/" && s.empty()) ok = true;
    try { PluginPath q = p.join(s); sx_assert(ok, "a malformed subpath is refused"); sx_assert(q.toString() == w && p.toString() == b, "the subpath is appended"); sx_cover("joined"); } catch (const PluginPathError &) { sx_assert(!ok, "a well-formed subpath is accepted"); sx_cover("refused"); }
    sx_cover("end");
}
SX_HARNESS(h_path_cat) { // concatenation of any two paths is a valid path whose nodes are those of both
    PluginPath a(tmpl[sx_pick("a", 0, 3)]), b(tmpl[sx_pick("b", 0, 3)]); PluginPath c; try { c = PluginPath(a, b); } catch (const Exception &) { sx_fail("the concatenation of two paths is a valid path"); }
    auto n = a.listNodes(); for (auto &x : b.listNodes()) n.push_back(x); sx_assert(c.listNodes() == n && valid(c.toString()), "the nodes of the first, then of the second"); sx_cover("end");
}
/* ------------------------------------------------------------ C24: the plugin registry */
static const char *const paths[] = { "/zt/a", "/zt/a/b", "/zt/c", "/zt" };
static int under(int i, int j) { std::string a = paths[i], b = paths[j]; return b.compare(0, a.size(), a) == 0 && (b.size() == a.size() || b[a.size()] == '/'); }
template <typename F> static bool fails(F f) { try { f(); return false; } catch (const PluginRegistryError &) { return true; } }
static void see(const bool *has, const int *val) {
    for (int i = 0; i < 4; i++) { PluginPath p(paths[i]); bool sub = false; for (int j = 0; j < 4; j++) if (has[j] && under(i, j)) sub = true;
        sx_assert(PluginRegistry::empty(p) == !has[i], "empty() exactly when nothing is registered at the path"); sx_assert(PluginRegistry::exists(p) == sub, "exists() exactly when something is registered at or below the path");
        if (has[i]) { Plugin g = PluginRegistry::get(p); sx_assert(g.getObject().extract<int>() == val[i] && g.getPath() == p, "get() returns what was added"); } else sx_assert(fails([&] { PluginRegistry::get(p); }), "get() of nothing fails"); }
    std::vector<std::string> l = PluginRegistry::list("/zt"), m = PluginRegistry::list("/zt/a"); bool a = has[0] || has[1]; unsigned na = 0, nc = 0; for (auto &x : l) { if (x == "a") na++; if (x == "c") nc++; }
    sx_assert(l.size() == unsigned(a) + unsigned(has[2]) && na == a && nc == has[2], "list() shows exactly the names with something at or below"); sx_assert(m.size() == has[1] && (m.empty() || m[0] == "b"), "list() of a sub path");
}
SX_HARNESS(h_reg) {
    bool has[4] = {}; int val[4] = {}; int first = 0; see(has, val);
    for (int s = 0; s < (SX_DEEP ? 5 : 4); s++) { int op = (int)sx_pick("op", 0, 2), i = (int)sx_pick("path", 0, 3); PluginPath p(paths[i]);
        if (op == 0) { int v = (int)sx_u32("v"); bool f = fails([&] { PluginRegistry::add(p, v); }); sx_assert(f == has[i], "add() fails exactly when the path is taken"); if (!f) { has[i] = true; val[i] = v; } else sx_cover("taken"); if (!first) { if (i < 2) first = 1; else if (i == 2) first = 2; } }
        else if (op == 1) { bool f = true; int v = 0; try { v = PluginRegistry::remove(p).getObject().extract<int>(); f = false; } catch (const PluginRegistryError &) {} sx_assert(f == !has[i], "remove() fails exactly when nothing is there"); if (!f) { sx_assert(v == val[i], "remove() returns what was there"); has[i] = false; sx_cover("removed"); } }
        else { bool f = fails([&] { PluginRegistry::get(p); }); sx_assert(f == !has[i], "get() fails exactly when nothing is there"); }
        if (s >= 2) see(has, val); }
    sx_cover("end");
}
// adding order
SX_HARNESS(h_reg_order) { static const char *const n[] = {"x", "m", "a"}; bool used[3] = {}; std::vector<std::string> w; for (int k = 0; k < 3; k++) { int i = (int)sx_pick("which", 0, 2); sx_assume(!used[i]); used[i] = true; w.push_back(n[i]); PluginRegistry::add(PluginPath("/zt").join(n[i]), k); sx_assert(PluginRegistry::list("/zt") == w, "names are listed in the order they were added"); } sx_cover("end"); }
// handlers registered above a plugin see it come and go, exactly once each, nearest first
static std::vector<std::string> ev;
static void onA(const Plugin &p, const std::string &e) { ev.push_back("A" + e + p.getPath().toString()); }
static void onB(const Plugin &p, const std::string &e) { ev.push_back("B" + e + p.getPath().toString()); }
static unsigned count(const std::string &s) { unsigned n = 0; for (auto &x : ev) if (x == s) n++; return n; }
SX_HARNESS(h_reg_events) {
    ev.clear(); bool hA = false, hB = false, pl = false; unsigned nA = 0, nB = 0, rA = 0, rB = 0; // expected add and remove events for the plugin at /zt/s/p
    for (int s = 0; s < 5; s++) switch (sx_pick("op", 0, 5)) {
        case 0: sx_assume(!hA); PluginRegistry::addCall("/zt", &onA); hA = true; if (pl) nA++; break;
        case 1: sx_assume(!hB); PluginRegistry::addCall("/zt/s", &onB); hB = true; if (pl) nB++; break;
        case 2: sx_assume(hA); PluginRegistry::remove("/zt"); hA = false; break;
        case 3: sx_assume(hB); PluginRegistry::remove("/zt/s"); hB = false; break;
        case 4: sx_assume(!pl); { size_t k = ev.size(); PluginRegistry::add("/zt/s/p", 1); pl = true; nA += hA; nB += hB; if (hA && hB) { sx_assert(ev.size() == k + 2 && ev[k] == "Badd/zt/s/p" && ev[k + 1] == "Aadd/zt/s/p", "the nearest handler is told first"); sx_cover("both"); } } break;
        case 5: sx_assume(pl); PluginRegistry::remove("/zt/s/p"); pl = false; rA += hA; rB += hB; break; }
    sx_assert(count("Aadd/zt/s/p") == nA && count("Badd/zt/s/p") == nB, "each handler is told once about each plugin added below it, also those present when it is added"); sx_assert(count("Aremove/zt/s/p") == rA && count("Bremove/zt/s/p") == rB, "each handler is told once about each plugin removed below it");
    if (nA + nB) sx_cover("added"); if (rA + rB) sx_cover("removed"); sx_cover("end");
}
// lookups and changes from two threads
static void act(int k) { switch (k) { case 0: PluginRegistry::empty("/zt/n/o"); break; case 1: sx_assert(!PluginRegistry::exists("/zt/n"), "nothing there"); break; case 2: sx_assert(fails([] { PluginRegistry::get("/zt/n/o"); }), "nothing there"); break; case 3: PluginRegistry::list("/zt/n"); break; case 4: sx_assert(PluginRegistry::get("/zt/k").getObject().extract<int>() == 7, "the plugin is there"); break; case 5: PluginRegistry::add("/zt/m", 1); sx_assert(PluginRegistry::get("/zt/m").getObject().extract<int>() == 1, "what was added is there"); break; } }
SX_HARNESS(h_reg_race) {
    PluginRegistry::add("/zt/k", 7); int a = (int)sx_pick("a", 0, 5), b = (int)sx_pick("b", 0, 4); static int k; k = a; int id = sx_thread_new([](void *) -> void * { act(k); return nullptr; }, nullptr); act(b); sx_thread_join(id);
    sx_assert(PluginRegistry::empty("/zt/m") == (a != 5), "nothing is lost"); sx_cover("end");
}
// additions, removals and lookups of one path from two threads: the results are those of one of the two orders
struct Op2 { int kind, val; bool ok; int got; }; static Op2 op2[2];
static void run2(Op2 &o) { o.ok = true; o.got = 0; try { switch (o.kind) { case 0: PluginRegistry::add("/zt/q/r", o.val); break; case 1: o.got = PluginRegistry::remove("/zt/q/r").getObject().extract<int>(); break; default: o.got = PluginRegistry::get("/zt/q/r").getObject().extract<int>(); } } catch (const PluginRegistryError &) { o.ok = false; } }
static bool as2(int &cur, const Op2 &o) { bool ok = o.kind == 0 ? !cur : cur != 0; if (o.ok != ok) return false; if (!ok) return true; if (o.kind == 0) { cur = o.val; return true; } if (o.got != cur) return false; if (o.kind == 1) cur = 0; return true; }
SX_HARNESS(h_reg_race2) {
    int cur = sx_pick("present", 0, 1) ? 5 : 0; if (cur) PluginRegistry::add("/zt/q/r", cur); op2[0] = Op2{(int)sx_pick("a", 0, 2), 1}; op2[1] = Op2{(int)sx_pick("b", 0, 2), 2}; sx_assume(op2[0].kind <= op2[1].kind);
    int id = sx_thread_new([](void *) -> void * { run2(op2[0]); return nullptr; }, nullptr); run2(op2[1]); sx_thread_join(id);
    int fin = PluginRegistry::exists("/zt/q/r") ? PluginRegistry::get("/zt/q/r").getObject().extract<int>() : 0;
    bool ok = false; for (int f = 0; f < 2; f++) { int c = cur; ok = ok || (as2(c, op2[f]) && as2(c, op2[!f]) && c == fin); } sx_assert(ok, "concurrent additions, removals and lookups of a path act one after the other"); if (op2[0].kind == 0 && op2[1].kind == 0) sx_cover("adds"); sx_cover("end");
}
/* removal undoes what the addition did: conversions, comparisons, hashes, strings */
struct Xa { int v; }; struct Xb { int v; };
static Xb conv(const Xa &a) { return Xb{a.v + 1}; } static int cmp(const Xa &a, const Xa &b) { return (a.v > b.v) - (a.v < b.v); } static size_t hsh(const Xa &a) { return size_t(a.v) * 3 + 1; } static std::string str(const Xa &) { return "<xa>"; }
SX_HARNESS(h_reg_undo) {
    int v = (int)(sx_u32("v") & 0xffff), w = (int)(sx_u32("w") & 0xffff); Object a(Xa{v}), b(Xa{w}); bool c[4] = {};
    std::string plain = a.toString();
    for (int s = 0; s < 3; s++) { int k = (int)sx_pick("what", 0, 3); static const char *const pt[] = {"/object/convert/zt", "/object/compare/zt", "/object/hash/zt", "/object/tostring/zt"};
        if (c[k]) PluginRegistry::remove(pt[k]); else switch (k) { case 0: PluginRegistry::addCall(pt[k], &conv); break; case 1: PluginRegistry::addCall(pt[k], &cmp); break; case 2: PluginRegistry::addCall(pt[k], &hsh); break; case 3: PluginRegistry::addCall(pt[k], &str); break; } c[k] = !c[k]; if (!c[k]) sx_cover("removed");
        bool t; try { t = a.convert<Xb>().v == v + 1; } catch (const ObjectConvertError &) { t = false; } sx_assert(t == c[0] && a.canConvert(typeid(Xb)) == c[0], "a conversion is there exactly while it is registered");
        int r = 2; try { r = a.compareTo(b); } catch (const ObjectCompareError &) {} catch (const Exception &) { sx_fail("a missing comparison is reported as such"); } sx_assert(r == (c[1] ? (v > w) - (v < w) : 2), "a comparison is there exactly while it is registered");
        try { size_t h = a.hashCode(); sx_assert((h == size_t(v) * 3 + 1) | !c[2], "a hash function is used exactly while it is registered"); } catch (const Exception &) { sx_fail("hashCode works without a hash function"); }
        try { sx_assert(a.toString() == (c[3] ? "<xa>" : plain), "a string function is used exactly while it is registered"); } catch (const Exception &) { sx_fail("toString works without a string function"); } }
    sx_cover("end");
}
