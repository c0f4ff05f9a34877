// Remote proxies (C25): the real client environment and the real server handler, joined by a stream in memory.
#include "symx.h"
#include <Pothos/Proxy.hpp>
#include <Pothos/Remote.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Remote/RemoteProxyDatagram.hpp>
#include <iostream>
#include <sstream>
#include <cstring>
#include <thread>
using namespace Pothos;
static int alive, ran;
struct RK { int v; RK(int v) : v(v) { alive++; } RK(const RK &o) : v(o.v) { alive++; } ~RK() { alive--; } int add(int x) { ran++; v = (int)((unsigned)v + (unsigned)x); return v; } void fails(int) { ran++; throw RangeException("broken"); } std::string text(const std::string &s, bool b) { ran++; return b ? s + s : s; } RK *self() { ran++; return this; } int both(const RK &a, RK &b) { ran++; b.v = a.v; return v; } };
static void setUp() { ManagedClass c; c.registerConstructor<RK, int>().registerMethod("add", &RK::add).registerMethod("fails", &RK::fails).registerMethod("text", &RK::text).registerMethod("self", &RK::self).registerMethod("both", &RK::both); c.commit("sx/RK"); alive = ran = 0; }
// the connection: what the client flushes is handled by the server at once, the replies are read in pieces
struct Link : std::streambuf { RemoteHandler server; std::string out, in; size_t pos, piece; long limit; unsigned handled; bool closed, done, starved; char c; explicit Link(size_t piece = 1 << 20) : pos(0), piece(piece), limit(-1), handled(0), closed(false), done(false), starved(false) {}
    int_type overflow(int_type ch) override { if (ch != traits_type::eof()) out.push_back((char)ch); return ch; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { out.append(s, (size_t)n); return n; }
    int sync() override { sx_atomic(1); sx_hb_acquire(this); while (!out.empty() && !closed) { std::stringstream q(out), a; try { if (server.runHandlerOnce(q, a)) done = true; } catch (const Exception &) { closed = true; } handled++; size_t used = (size_t)q.tellg(); out.erase(0, used); in += a.str(); if (limit >= 0 && in.size() >= (size_t)limit) { in.resize((size_t)limit); closed = true; } } sx_hb_release(this); sx_atomic(0); return 0; }
    std::streamsize xsgetn(char *s, std::streamsize n) override { std::streamsize got = 0; while (got < n) { sx_hb_acquire(this); size_t k = in.size() - pos; if (!k) { if (!closed) { starved = true; sx_fail("a reply is awaited that has been taken or was never asked for"); } break; } if (k > piece) k = piece; if (k > (size_t)(n - got)) k = (size_t)(n - got); memcpy(s + got, in.data() + pos, k); pos += k; got += (std::streamsize)k; sx_hb_release(this); } return got; }
    int_type underflow() override { if (pos >= in.size()) return traits_type::eof(); c = in[pos++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); } };
template <typename F> static int raised(const F &f) { try { f(); } catch (const ProxyHandleCallError &) { return 1; } catch (const ProxyExceptionMessage &) { return 2; } catch (const ProxyEnvironmentFindError &) { return 3; } catch (const ProxyEnvironmentConvertError &) { return 4; } catch (const IOException &) { return 5; } catch (const ProxyEnvironmentFactoryError &) { return 6; } catch (const ProxyCompareError &) { return 7; } catch (const Exception &) { return 8; } return 0; }
/* ------------------------------------------------------------ datagrams */
static std::string text(const char *n, unsigned mx) { unsigned k = (unsigned)sx_pick("len", 0, mx); std::string s(k, 0); if (k) sx_bytes(&s[0], k, n); return s; }
SX_HARNESS(h_rpc_datagram) { std::stringstream s; unsigned n = (unsigned)sx_pick("datagrams", 1, 2); ObjectKwargs m[2]; int v[2]; std::string t[2], big;
    for (unsigned i = 0; i < n; i++) { v[i] = (int)sx_u32("v"); t[i] = text("text", 2); m[i]["v"] = Object(v[i]); m[i]["t"] = Object(t[i]); if (sx_pick("null", 0, 1)) m[i]["n"] = Object(); if (i == 0 && sx_pick("big", 0, 1)) { big.assign(2200, 'x'); sx_bytes(&big[1017], 8, "middle"); m[i]["b"] = Object(big); sx_cover("big"); } sendDatagram(s, m[i]); }
    for (unsigned i = 0; i < n; i++) { ObjectKwargs r = recvDatagram(s); sx_assert(r.size() == m[i].size(), "a datagram has the entries that were sent"); sx_assert(r.at("v").extract<int>() == v[i] && r.at("t").extract<std::string>() == t[i], "a datagram has the values that were sent"); if (m[i].count("n")) sx_assert(!r.at("n"), "a null entry stays null"); if (m[i].count("b")) sx_assert(r.at("b").extract<std::string>() == big, "a long datagram arrives unaltered"); }
    sx_assert(raised([&] { recvDatagram(s); }) == 5, "the end of the stream is reported"); sx_cover("end"); }
SX_HARNESS(h_rpc_damaged) { ObjectKwargs m; m["v"] = Object(7); std::stringstream s; sendDatagram(s, m); std::string b = s.str(); size_t L = b.size();
    switch (sx_pick("damage", 0, 4)) { case 0: { b.resize(sx_pick("cut", 0, L - 1)); break; } case 1: { uint32_t w = sx_u32("header"); sx_assume(w != 0x43505250u); memcpy(&b[0], &w, 4); uint32_t good; memcpy(&good, s.str().data(), 4); sx_assume(w != good); break; } case 2: { uint32_t w = sx_u32("trailer"), good; memcpy(&good, b.data() + L - 4, 4); sx_assume(w != good); memcpy(&b[L - 4], &w, 4); break; }
    case 3: { uint32_t w = (uint32_t)sx_pick("size", 0, L + 2), good; if (w > L) w = w == L + 1 ? 5000 : 0xffffffff; w = __builtin_bswap32(w); memcpy(&good, b.data() + 4, 4); sx_assume(w != good); memcpy(&b[4], &w, 4); break; }
    default: { std::stringstream o; Object x; switch (sx_pick("content", 0, 2)) { case 0: break; case 1: x = Object(5); break; default: x = Object(ObjectVector(1, Object(1))); } x.serialize(o); std::string p = o.str(); uint32_t n = __builtin_bswap32((uint32_t)p.size()); b = b.substr(0, 4) + std::string((char *)&n, 4) + p + b.substr(L - 4); sx_cover("content"); break; } }
    std::stringstream d(b); int e = -1; try { recvDatagram(d); e = 0; } catch (const Exception &) { e = 1; } catch (const std::bad_alloc &) { e = 2; } sx_assert(e > 0, "a damaged datagram is reported"); sx_cover("end"); }
/* ------------------------------------------------------------ calls */
struct Conn { Link link; std::istream is; std::ostream os; ProxyEnvironment::Sptr env; explicit Conn(size_t piece = 1 << 20) : link(piece), is(&link), os(&link) { env = RemoteClient::makeEnvironment(is, os, "managed"); } };
SX_HARNESS(h_rpc_call) { setUp(); { Conn c(sx_pick("piece", 0, 1) ? 3 : 1 << 20); { int v = (int)sx_u32("v"), x = (signed char)sx_u8("x"), n = 0; Proxy cls = c.env->findProxy("sx/RK"), p = cls.call("()", v); sx_assert(alive == 1, "a remote constructor makes one instance");
    switch (sx_pick("what", 0, 9)) {
    case 0: { int r = p.call("add", x); sx_assert(r == (int)((unsigned)v + (unsigned)x) && ran == 1, "a remote call runs once with its arguments and returns the result"); r = p.call("add", 1); sx_assert(r == (int)((unsigned)v + (unsigned)x + 1u) && ran == 2, "the instance keeps its state"); break; }
    case 1: { std::string m; int e = raised([&] { try { p.call("fails", x); } catch (const ProxyExceptionMessage &ex) { m = ex.message(); throw; } }); sx_assert(e == 2 && ran == 1 && m.find("broken") != std::string::npos, "an exception in a remote call is reported to the caller"); int r = p.call("add", x); sx_assert(r == (int)((unsigned)v + (unsigned)x), "and the next call works"); sx_cover("exception"); break; }
    case 2: { std::string t = text("text", 3); bool b = sx_pick("twice", 0, 1); std::string r = p.call("text", t, b); sx_assert(r == (b ? t + t : t), "strings are passed and returned"); break; }
    case 3: { Proxy q = p.call("self"); int r = q.call("add", x); int w = p.call("add", 0); sx_assert(r == w && alive == 1, "a returned reference refers to the remote instance"); break; }
    case 4: { Proxy q = cls.call("()", x); sx_assert(alive == 2, "two instances"); Proxy o = cls.call("()", 0); int r = p.call("both", q, o); int w = o.call("add", 0); sx_assert(r == v && w == x, "remote objects are passed as arguments in their order"); break; }
    case 5: { sx_assert(raised([&] { p.call("nothing"); }) == 1 && raised([&] { p.call("add"); }) == 1 && raised([&] { p.call("add", std::string("x")); }) == 1 && ran == 0, "calls that nothing fits are refused"); sx_assert(raised([&] { c.env->findProxy("sx/none"); }) == 3, "an unknown class is refused"); sx_cover("refused"); break; }
    case 6: { Proxy q = c.env->makeProxy(x); sx_assert(int(q) == x && (int)q.convert<int>() == x, "a value is converted there and back"); Proxy s = c.env->makeProxy(std::string("ab")); sx_assert(s.convert<std::string>() == "ab" && s.toString() == ProxyEnvironment::make("managed")->makeProxy(std::string("ab")).toString(), "a string is converted there and back"); sx_assert(q.getClassName() == "int", "the class of a remote value"); break; }
    case 7: { Proxy q = c.env->makeProxy(v), r = c.env->makeProxy(x); int k = q.compareTo(r); sx_assert((k > 0) - (k < 0) == (v > x) - (v < x), "remote values compare like local ones"); Proxy l = ProxyEnvironment::make("managed")->makeProxy(x); k = q.compareTo(l); sx_assert((k > 0) - (k < 0) == (v > x) - (v < x), "a local value is compared with a remote one"); k = l.compareTo(q); sx_assert((k > 0) - (k < 0) == (x > v) - (x < v), "and the other way round"); if (v == x) sx_assert(q.hashCode() == r.hashCode(), "equal values have equal hashes"); sx_cover("compared"); break; }
    case 8: { Proxy l = ProxyEnvironment::make("managed")->makeProxy(x); int r = p.call("add", l); sx_assert(r == (int)((unsigned)v + (unsigned)x), "a local proxy is converted for a remote call"); break; }
    default: { sx_assert(raised([&] { p.convert<RK>(); }) != 0 && raised([&] { p.call("add", 1); }) == 0, "an instance that cannot be sent is refused, and the connection still works"); { RK local(x); sx_assert(raised([&] { p.call("both", local, p); }) != 0 && raised([&] { p.call("add", 1); }) == 0, "and so is an argument that cannot be sent"); } Proxy q = p, r = p; p = Proxy(); q = Proxy(); n = r.call("add", 0); sx_assert(alive == 1, "a remote instance lives as long as a proxy refers to it"); break; } }
    } sx_assert(alive == 0, "remote instances are destroyed with the last proxy"); sx_assert(!c.link.done, "the server goes on while the environment is there"); c.env.reset(); sx_assert(c.link.done, "the server ends with the environment"); sx_assert(c.link.pos == c.link.in.size(), "every reply was read"); } sx_cover("end"); }
// a connection that breaks after any reply byte
SX_HARNESS(h_rpc_broken) { setUp(); { Link l; std::iostream io(&l); ProxyEnvironment::Sptr env; size_t at = sx_pick("reply", 0, 3), cut = sx_pick("bytes", 0, 3); unsigned k = 0; auto arm = [&] { if (k++ == at) l.limit = (long)(l.in.size() + (cut < 3 ? cut * 5 : 40)); }; int e = 0, step = 0; Proxy p, q;
    arm(); e = raised([&] { env = RemoteClient::makeEnvironment(io, "managed"); }); if (!e) { step++; arm(); e = raised([&] { p = env->findProxy("sx/RK"); }); } if (!e) { step++; arm(); e = raised([&] { q = env->makeProxy(5); }); } if (!e) { step++; arm(); e = raised([&] { (void)q.toString(); }); }
    sx_assert(e == 5 && step == (int)at, "a broken connection is reported to the caller"); if (env) sx_assert(raised([&] { env->findProxy("sx/RK"); }) == 5, "and to later callers"); if (step) sx_cover("later"); } sx_cover("end"); }
/* ------------------------------------------------------------ threads */
static Conn *tc; static int tv[2], tr[2], te[2]; static Proxy *tp[2];
static void *client(void *a) { int i = (int)(intptr_t)a; te[i] = raised([&] { tr[i] = int(tp[i]->convert<std::string>().size()); }); return nullptr; }
// two threads share one connection
SX_HARNESS(h_rpc_threads) { { Conn c; tc = &c; Proxy a = c.env->makeProxy(std::string("x")), b = c.env->makeProxy(std::string("yyy")); tp[0] = &a; tp[1] = &b; tr[0] = tr[1] = 0; bool fail = sx_pick("fail", 0, 1); if (fail) c.link.limit = (long)c.link.in.size() + (long)sx_pick("at", 0, 1) * 40;
    int id = sx_thread_new(client, (void *)1); client((void *)0); sx_thread_join(id);
    if (!fail) sx_assert(te[0] == 0 && te[1] == 0 && tr[0] == 1 && tr[1] == 3, "each thread gets the reply to its own request"); else { sx_assert(te[0] == 5 && te[1] == 5, "every thread learns that the connection broke"); sx_cover("broken"); } }
    sx_cover("end"); }
// two connections to one server
static void *client2(void *a) { int i = (int)(intptr_t)a; te[i] = raised([&] { Conn c; Proxy p = c.env->makeProxy(tv[i]); tr[i] = p.convert<int>(); }); return nullptr; }
SX_HARNESS(h_rpc_two) { tv[0] = 3; tv[1] = 4; int id = sx_thread_new(client2, (void *)1); client2((void *)0); sx_thread_join(id); sx_assert(te[0] == 0 && te[1] == 0 && tr[0] == 3 && tr[1] == 4, "two connections do not disturb each other"); sx_cover("end"); }
