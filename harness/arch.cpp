#include "symx.h"
#include <Pothos/Archive.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Framework.hpp>
#include <sstream>
#include <cstring>
#include <complex>
using namespace Pothos; using Pothos::Archive::OStreamArchiver; using Pothos::Archive::IStreamArchiver;
template <typename T> static std::string enc(const T &v) { std::stringstream s; OStreamArchiver a(s); a << v; return s.str(); }
template <typename T> static void dec(const std::string &b, T &v) { std::stringstream s(b); { IStreamArchiver a(s); a >> v; } sx_assert(bool(s), "reading back finds everything that was written"); s.get(); sx_assert(!s, "reading back consumes everything that was written"); }
// values of arithmetic types with arbitrary bits
template <typename T> static T any(const char *n) { T v; memset(&v, 0, sizeof v); sx_bytes(&v, sizeof v, n); return v; }
template <> bool any<bool>(const char *n) { return sx_bool(n); }
template <> long double any<long double>(const char *) { return 0; }
template <typename T> static bool same(const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <typename T> static void num() { T v = any<T>("v"), w = any<T>("before"); dec(enc(v), w); sx_assert(same(v, w), "a number is restored bit by bit"); }
/* ------------------------------------------------------------ C16: round trip of numbers and containers */
SX_HARNESS(h_ar_small) { switch (sx_pick("type", 0, 5)) { case 0: num<bool>(); break; case 1: num<char>(); break; case 2: num<signed char>(); break; case 3: num<unsigned char>(); break; case 4: num<short>(); break; case 5: num<unsigned short>(); break; } sx_cover("end"); }
SX_HARNESS(h_ar_int) { switch (sx_pick("type", 0, 5)) { case 0: num<int>(); break; case 1: num<unsigned>(); break; case 2: num<long>(); break; case 3: num<unsigned long>(); break; case 4: num<long long>(); break; case 5: num<unsigned long long>(); break; } sx_cover("end"); }
SX_HARNESS(h_ar_float) { switch (sx_pick("type", 0, 1)) { case 0: num<float>(); break; case 1: num<double>(); break; } sx_cover("end"); }
static std::string str(unsigned mx) { unsigned n = (unsigned)sx_pick("len", 0, mx); std::string s(n, 0); if (n) sx_bytes(&s[0], n, "chars"); return s; }
// a sequence of values of different types in one archive
SX_HARNESS(h_ar_mixed) { int a = any<int>("a"); std::string b = str(2); double c = any<double>("c"); long long d = sx_pick("d", 0, 1) ? -1 : (long long)(sx_u32("d")) << 31; std::pair<short, std::string> e(any<short>("e"), str(1)); std::stringstream s; { OStreamArchiver o(s); o << a; o << b; o & c; o << d; o << e; }
    int a2; std::string b2 = "old contents"; double c2; long long d2; std::pair<short, std::string> e2; { IStreamArchiver i(s); i >> a2; i >> b2; i & c2; i >> d2; i >> e2; } sx_assert(a == a2 && b == b2 && same(c, c2) && d == d2 && e == e2, "a sequence of values is restored"); sx_cover("end"); }
template <typename T> static void vec(unsigned mx) { unsigned n = (unsigned)sx_pick("n", 0, mx); std::vector<T> v; for (unsigned i = 0; i < n; i++) v.push_back(any<T>("e")); std::vector<T> w(sx_pick("old", 0, 1)); dec(enc(v), w); sx_assert(v.size() == w.size(), "a vector keeps its size"); for (unsigned i = 0; i < n; i++) { T x = v[i], y = w[i]; sx_assert(same(x, y), "a vector keeps its elements"); } }
SX_HARNESS(h_ar_vec) { switch (sx_pick("type", 0, 5)) { case 0: vec<unsigned char>(3); break; case 1: vec<bool>(3); break; case 2: vec<unsigned short>(3); break; case 3: vec<float>(2); break; case 4: vec<int>(2); break; case 5: vec<long long>(1); break; } sx_cover("end"); }
SX_HARNESS(h_ar_vecs) { unsigned n = (unsigned)sx_pick("n", 0, 2); std::vector<std::string> v, w(1, "x"); for (unsigned i = 0; i < n; i++) v.push_back(str(2)); dec(enc(v), w); sx_assert(v == w, "a vector of strings is restored"); std::vector<std::vector<short>> p(sx_pick("n", 0, 2)), q; for (auto &x : p) x.assign(sx_pick("n", 0, 2), any<short>("e")); dec(enc(p), q); sx_assert(p == q, "a vector of vectors is restored"); sx_cover("end"); }
SX_HARNESS(h_ar_map) { std::map<short, std::string> m, k; k[5] = "old"; unsigned n = (unsigned)sx_pick("n", 0, 2); for (unsigned i = 0; i < n; i++) { short x = any<short>("key"); m[x] = str(1); } dec(enc(m), k); sx_assert(m == k, "a map is restored"); std::set<unsigned short> a, b; b.insert(7); n = (unsigned)sx_pick("n", 0, 3); for (unsigned i = 0; i < n; i++) a.insert(any<unsigned short>("elem")); dec(enc(a), b); sx_assert(a == b, "a set is restored"); sx_cover("end"); }
SX_HARNESS(h_ar_complex) { if (sx_pick("type", 0, 1)) { std::complex<short> v(any<short>("re"), any<short>("im")), w; dec(enc(v), w); sx_assert(v == w, "a complex number is restored"); } else { std::complex<float> v, w; sx_bytes(&v, sizeof v, "v"); dec(enc(v), w); sx_assert(same(v, w), "a complex number is restored"); } sx_cover("end"); }
// lengths around the boundaries of the length encoding
SX_HARNESS(h_ar_long) { size_t n = sx_pick("n", 0, 4); static const size_t L[5] = { 63, 127, 128, 255, 256 }; n = L[n]; std::string s(n, 0), t; sx_bytes(&s[0], n, "chars"); dec(enc(s), t); sx_assert(s == t, "a long string is restored"); std::vector<unsigned char> v(s.begin(), s.end()), w; dec(enc(v), w); sx_assert(v == w, "a long vector is restored"); sx_cover("end"); }
/* ------------------------------------------------------------ C17: objects and framework types */
static Object anyObj(unsigned depth) { switch (sx_pick("kind", 0, depth ? 9 : 6)) { case 0: return Object(); case 1: return Object(any<int>("v")); case 2: return Object(sx_bool("v")); case 3: return Object(str(2)); case 4: return Object(any<double>("v")); case 5: return Object(any<unsigned char>("v")); case 6: return Object(std::complex<float>(1, any<float>("v")));
    case 7: { ObjectVector v; unsigned n = (unsigned)sx_pick("n", 0, 2); for (unsigned i = 0; i < n; i++) v.push_back(anyObj(depth - 1)); return Object(v); } case 8: { ObjectKwargs m; if (sx_pick("n", 0, 1)) m[str(1)] = anyObj(depth - 1); return Object(m); } default: { std::vector<std::string> v; if (sx_pick("n", 0, 1)) v.push_back(str(1)); return Object(v); } } }
static void sameObj(const Object &a, const Object &b) { sx_assert(bool(a) == bool(b), "a null object stays null and others do not become null"); if (!a) return; sx_assert(a.type() == b.type(), "an object keeps its type"); const auto &t = a.type();
    if (t == typeid(int)) sx_assert(a.extract<int>() == b.extract<int>(), "object value"); else if (t == typeid(bool)) sx_assert(a.extract<bool>() == b.extract<bool>(), "object value"); else if (t == typeid(std::string)) sx_assert(a.extract<std::string>() == b.extract<std::string>(), "object value"); else if (t == typeid(double)) sx_assert(same(a.extract<double>(), b.extract<double>()), "object value"); else if (t == typeid(unsigned char)) sx_assert(a.extract<unsigned char>() == b.extract<unsigned char>(), "object value"); else if (t == typeid(std::complex<float>)) sx_assert(same(a.extract<std::complex<float>>(), b.extract<std::complex<float>>()), "object value");
    else if (t == typeid(std::vector<std::string>)) sx_assert(a.extract<std::vector<std::string>>() == b.extract<std::vector<std::string>>(), "object value");
    else if (t == typeid(ObjectVector)) { const auto &x = a.extract<ObjectVector>(), &y = b.extract<ObjectVector>(); sx_assert(x.size() == y.size(), "object vector size"); for (size_t i = 0; i < x.size(); i++) sameObj(x[i], y[i]); sx_cover("nested"); }
    else { const auto &x = a.extract<ObjectKwargs>(), &y = b.extract<ObjectKwargs>(); sx_assert(x.size() == y.size(), "object map size"); auto i = x.begin(); auto j = y.begin(); for (; i != x.end(); ++i, ++j) { sx_assert(i->first == j->first, "object map key"); sameObj(i->second, j->second); } } }
SX_HARNESS(h_ar_obj) { { Object a = anyObj(1); std::stringstream s; a.serialize(s); Object b; b.deserialize(s); sx_assert(bool(s), "complete"); s.get(); sx_assert(!s, "nothing left over"); sameObj(a, b); if (b) sx_assert(b.unique(), "a restored object has one holder"); } sx_cover("end"); }
static DType anyType() { switch (sx_pick("dt", 0, 6)) { case 0: return DType(); case 1: return DType(typeid(unsigned char)); case 2: return DType("int16", 3); case 3: return DType("complex_float64"); case 4: return DType("custom", sx_pick("dim", 0, 2)); case 5: return DType::fromDType(DType("complex_uint32"), sx_range("dim", 1, 300)); default: return DType(typeid(std::complex<long long>)); } }
SX_HARNESS(h_ar_dtype) { DType a = anyType(), b("float32", 9); dec(enc(a), b); sx_assert(a == b && a.size() == b.size() && a.dimension() == b.dimension() && a.elemSize() == b.elemSize() && a.elemType() == b.elemType() && a.name() == b.name() && a.toString() == b.toString(), "a data type is restored with its name, dimension and sizes"); sx_assert(bool(a) == bool(b) && a.isComplex() == b.isComplex() && a.isFloat() == b.isFloat() && a.isInteger() == b.isInteger() && a.isSigned() == b.isSigned() && a.isCustom() == b.isCustom(), "and its classification"); sx_cover("end"); }
static void sameChunk(const BufferChunk &a, const BufferChunk &b) { sx_assert(bool(a) == bool(b), "a null chunk stays null"); if (!a) return; sx_assert(a.length == b.length && a.dtype == b.dtype, "a chunk keeps length and type"); for (size_t i = 0; i < a.length; i++) sx_assert(a.as<const unsigned char *>()[i] == b.as<const unsigned char *>()[i], "a chunk keeps its bytes"); }
static BufferChunk anyChunk() { if (sx_pick("null", 0, 1)) return BufferChunk(); size_t n = sx_pick("n", 0, 4), o = sx_pick("off", 0, 2); BufferChunk b(n + o); sx_bytes(b.as<void *>(), n + o, "bytes"); b.address += o; b.length -= o; b.dtype = n == 2 ? DType("uint16") : DType("uint8"); return b; }
SX_HARNESS(h_ar_chunk) { { BufferChunk a = anyChunk(), b(5); dec(enc(a), b); sameChunk(a, b); } sx_cover("end"); }
static Label anyLabel() { Label l; l.id = str(1); l.index = sx_u64("index"); l.width = size_t(sx_u64("width")); if (sx_pick("data", 0, 1)) l.data = Object(any<int>("v")); return l; }
static void sameLabel(const Label &a, const Label &b) { sx_assert(a.id == b.id && a.index == b.index && a.width == b.width, "a label keeps id, index and width"); sameObj(a.data, b.data); }
SX_HARNESS(h_ar_label) { { Label a = anyLabel(), b("x", 3, 4); b.data = Object(); dec(enc(a), b); sameLabel(a, b); } sx_cover("end"); }
SX_HARNESS(h_ar_packet) { { Packet a, b; a.payload = anyChunk(); if (sx_pick("meta", 0, 1)) a.metadata["k"] = Object(any<int>("m")); if (sx_pick("label", 0, 1)) { Label l("id", 5, sx_u16("index")); a.labels.push_back(l); } std::stringstream s; Object(a).serialize(s); Object o; o.deserialize(s); const Packet &p = o.extract<Packet>(); sameChunk(a.payload, p.payload); sx_assert(a.metadata.size() == p.metadata.size() && a.labels.size() == p.labels.size(), "a packet keeps its metadata and labels"); if (a.metadata.size()) sx_assert(p.metadata.begin()->first == "k" && p.metadata.begin()->second.extract<int>() == a.metadata.begin()->second.extract<int>(), "metadata"); if (a.labels.size()) sameLabel(a.labels[0], p.labels[0]); } sx_cover("end"); }
SX_HARNESS(h_ar_port) { { PortInfo a, b; a.name = str(1); a.isSigSlot = sx_bool("sig"); a.dtype = anyType(); { std::stringstream s; Object(a).serialize(s); Object o; o.deserialize(s); b = o.extract<PortInfo>(); } sx_assert(a.name == b.name && a.isSigSlot == b.isSigSlot && a.dtype == b.dtype, "port information is restored"); } sx_cover("end"); }
SX_HARNESS(h_ar_pool) { { ThreadPoolArgs p; p.numThreads = size_t(sx_u64("threads")); p.priority = any<double>("prio"); p.affinityMode = sx_pick("mode", 0, 1) ? "CPU" : ""; p.affinity.assign(sx_pick("n", 0, 2), size_t(sx_u32("aff"))); p.yieldMode = "SPIN"; std::stringstream s; Object(p).serialize(s); Object o; o.deserialize(s); const auto &r = o.extract<ThreadPoolArgs>(); sx_assert(p.numThreads == r.numThreads && same(p.priority, r.priority) && p.affinityMode == r.affinityMode && p.affinity == r.affinity && p.yieldMode == r.yieldMode, "thread pool arguments are restored"); } sx_cover("end"); }
/* ------------------------------------------------------------ C18: damaged archives */
// reading from any prefix of an archive reports an error, and leaves nothing behind
template <typename T, typename F> static void cut(const T &v, F make) { std::string b = enc(v); size_t n = sx_pick("keep", 0, b.size() - 1); std::stringstream s(b.substr(0, n)); bool threw = false; T w = make(); try { IStreamArchiver a(s); a >> w; } catch (const Exception &) { threw = true; } sx_assert(threw, "a truncated archive is reported"); }
SX_HARNESS(h_ar_trunc) { switch (sx_pick("what", 0, 5)) { case 0: cut<int>(int(sx_pick("v", 0, 1) ? -70000 : 5), [] { return 0; }); break; case 1: { std::string s = str(2); cut(s, [] { return std::string(); }); break; } case 2: { std::vector<short> v(sx_pick("n", 0, 2), any<short>("e")); cut(v, [] { return std::vector<short>(); }); break; } case 3: { std::map<short, std::string> m; if (sx_pick("n", 0, 1)) m[any<short>("k")] = "xy"; cut(m, [] { return std::map<short, std::string>(); }); break; } case 4: cut(std::complex<float>(1, 2), [] { return std::complex<float>(); }); break; case 5: cut(any<short>("v"), [] { return short(0); }); break; } sx_cover("end"); }
SX_HARNESS(h_ar_trunc_obj) { uint64_t l0 = sx_live(); { Object a; switch (sx_pick("kind", 0, 5)) { case 0: a = Object(any<int>("v")); break; case 1: a = Object(std::string("abc")); break; case 2: { ObjectVector v; v.push_back(Object(std::string("x"))); v.push_back(Object(7)); a = Object(v); break; } case 3: { ObjectKwargs m; m["k"] = Object(std::string("y")); a = Object(m); break; } case 4: { BufferChunk c(3); sx_bytes(c.as<void *>(), 3, "b"); a = Object(c); break; } case 5: { Label l("i", Object(std::string("d")), 3); a = Object(l); break; } }
      std::stringstream s; a.serialize(s); std::string b = s.str(); size_t n = sx_pick("keep", 0, b.size() - 1); std::stringstream t(b.substr(0, n)); Object o; bool threw = false; l0 = sx_live(); try { o.deserialize(t); } catch (const ObjectSerializeError &) { threw = true; } sx_assert(threw, "a truncated object is reported"); sx_assert(!o, "no object results from a truncated archive"); sx_assert(sx_live() == l0, "nothing is left behind after a failed read"); } sx_cover("end"); }
// any bytes at all: reading ends, with a value or an error, inside the given bytes
template <typename T> static void junk(unsigned n, unsigned mx) { std::string b(n + 1, 0); b[0] = 2; sx_bytes(&b[1], n, "byte"); std::stringstream s(b); uint64_t l0 = sx_live(); { T w = T(); try { IStreamArchiver a(s); a >> w; sx_cover("accepted"); sx_assert(size_t(s.tellg()) <= 1 + mx, "an integer does not take more bytes than its type can need"); } catch (const std::exception &) { sx_cover("refused"); } } sx_assert(sx_live() == l0, "nothing is left behind"); }
SX_HARNESS(h_ar_junk_int) { switch (sx_pick("type", 0, 3)) { case 0: junk<int>(6, 5); break; case 1: junk<unsigned>(6, 5); break; case 2: junk<long long>(11, 10); break; case 3: junk<unsigned long long>(11, 10); break; } sx_cover("end"); }
SX_HARNESS(h_ar_junk_con) { switch (sx_pick("type", 0, 3)) { case 0: junk<std::string>(6, 99); break; case 1: junk<std::vector<unsigned char>>(6, 99); break; case 2: junk<std::set<unsigned char>>(4, 99); break; case 3: junk<std::vector<bool>>(5, 99); break; } sx_cover("end"); }
// an object of a known or unknown type with arbitrary contents
SX_HARNESS(h_ar_junk_obj) { { std::string b; switch (sx_pick("kind", 0, 6)) { case 0: b = std::string("\2\0", 2); break; case 1: b = enc(Object(0)); break; case 2: b = enc(Object(std::string())); break; case 3: b = enc(Object(ObjectVector())); break; case 4: b = enc(Object(std::vector<short>())); break; case 5: b = enc(Object(BufferChunk())); break; case 6: b = enc(Object(ObjectKwargs())); break; } if (b.size() > 2) b.resize(b.size() - 1);
      unsigned n = (unsigned)sx_pick("len", 0, SX_DEEP ? 5 : 4); std::string t(n, 0); if (n) sx_bytes(&t[0], n, "byte"); std::stringstream s(b + t); Object o; bool threw = false; uint64_t l0 = sx_live(); try { o.deserialize(s); sx_cover("accepted"); } catch (const ObjectSerializeError &) { threw = true; sx_cover("refused"); } if (threw) sx_assert(!o && sx_live() == l0, "a refused archive leaves nothing behind"); } sx_cover("end"); }
