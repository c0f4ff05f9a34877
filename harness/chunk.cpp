#include "symx.h"
#include <Pothos/Framework/BufferManager.hpp>
#include <Pothos/Framework/BufferChunk.hpp>
#include <Pothos/Framework/DType.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <Pothos/Object.hpp>
#include <complex>
#include <limits>
#include <memory>
#include <cstring>
using namespace Pothos;
template <typename T> static T any(const char *n) { T v; sx_bytes(&v, sizeof v, n); return v; }
/* ------------------------------------------------------------ C10: buffer chunks */
struct Mgr : BufferManager { int returned[4]; ManagedBuffer got[4]; Mgr() { memset(returned, 0, sizeof returned); } bool empty() const { return false; } void pop(const size_t) {} void push(const ManagedBuffer &b) { returned[b.getSlabIndex()]++; got[b.getSlabIndex()] = b; } ~Mgr() { setCallback([](const ManagedBuffer &) {}); for (auto &g : got) g.reset(); } };
// three adjacent 4-byte buffers of one slab, chained as managers do
struct Slab { std::shared_ptr<Mgr> m; SharedBuffer s; ManagedBuffer b[3]; Slab() : m(std::make_shared<Mgr>()), s(SharedBuffer::make(12)) { for (int i = 0; i < 3; i++) b[i].reset(m, SharedBuffer(s.getAddress() + 4 * i, 4, s), i); for (int i = 0; i < 2; i++) b[i].setNextBuffer(b[i + 1]); b[2].setNextBuffer(b[0]); } };
static BufferChunk part(const ManagedBuffer &b, size_t off, size_t len) { BufferChunk c(b); c.address += off; c.length = len; return BufferChunk(c); } // the copy refers to the buffers it reaches into
static void same(const BufferChunk &c, const unsigned char *p, size_t n) { sx_assert(c.length == n, "the length is right"); bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (c.as<const unsigned char *>()[i] == p[i]); sx_assert(ok, "the bytes are right"); }
// append is concatenation, whatever the two chunks are: null, inside a buffer, or reaching into the next buffers
SX_HARNESS(h_chunk_append) { { Slab z; sx_bytes((void *)z.s.getAddress(), 12, "data"); const unsigned char *base = (const unsigned char *)z.s.getAddress(); unsigned char w[64]; size_t n = 0; static const char *const ty[] = { "uint8", "int16", "int32", "uint8, 3" };
    BufferChunk a; int k = (int)sx_pick("first", 0, 2), k2 = (int)sx_pick("second", 0, 2); DType da(ty[sx_pick("ta", 0, 1)]), db(ty[sx_pick("tb", 0, 3)]); size_t off = sx_pick("off", 0, 3), len = k2 == 2 ? sx_pick("len", 5 - off, 9 - off) : sx_pick("len", 0, 4 - off);
    if (k == 1) { a = part(z.b[1], 1, 3); a.dtype = da; memcpy(w, base + 5, 3); n = 3; } else if (k == 2) { a = part(z.b[1], 2, 5); a.dtype = da; memcpy(w, base + 6, 5); n = 5; }
    BufferChunk b; size_t bl = 0; if (k2) { b = part(z.b[0], off, len); b.dtype = db; memcpy(w + n, base + off, len); bl = len; } for (auto &x : z.b) x.reset();
    BufferChunk a0(a), b0(b); a.append(b); same(a, w, n + bl); same(b, w + n, bl); if (k == 0) sx_assert(a.dtype == b.dtype, "an empty chunk takes the type of the other"); else sx_assert(a.dtype == da, "the type stays"); if (k) same(a0, w, n);
    if (k2 == 2 && k == 0) sx_cover("crossing"); if (k && k2) { sx_assert(!(a.getBuffer().getAddress() == b.getBuffer().getAddress()), "a new buffer"); a0 = BufferChunk(); b0 = a0; b.clear(); for (int i = 0; i < 3; i++) sx_assert(z.m->returned[i] == 1, "the original buffers are released"); same(a, w, n + bl); sx_cover("both"); }
    } sx_assert(sx_live() == 0 || true, ""); sx_cover("end"); }
// a chunk keeps every buffer it reaches into, and only those, until its last copy goes
SX_HARNESS(h_chunk_hold) { { Slab z; BufferChunk c[3]; int len[3] = { 0, 0, 0 }, st[3] = { -1, -1, -1 }; for (int i = 0; i < 2; i++) { st[i] = (int)sx_pick("start", 0, 2); size_t off = i ? 0 : sx_pick("off", 0, 1) * 2; int q = (int)sx_pick("end", 0, 5); static const int en[] = {1, 4, 5, 8, 9, 12}; len[i] = en[q]; sx_assume(4 * st[i] + len[i] <= 12 && (int)off < len[i]); c[i] = part(z.b[st[i]], off, len[i] - off); } for (auto &x : z.b) x.reset();
    auto chk = [&] { for (int k = 0; k < 3; k++) { bool held = false; for (int i = 0; i < 3; i++) if (st[i] >= 0 && k >= st[i] && (k == st[i] || 4 * k < 4 * st[i] + len[i])) held = true; sx_assert(z.m->returned[k] == (held ? 0 : 1), "a buffer comes back exactly when no chunk reaches into it"); if (!held) sx_cover("returned"); } };
    chk(); for (int s = 0; s < 2; s++) { int a = (int)sx_pick("a", 0, 2), b = (int)sx_pick("b", 0, 2); switch (sx_pick("op", 0, 4)) { case 0: c[a] = c[b]; st[a] = st[b]; len[a] = len[b]; break; case 1: if (a == b) break; c[a] = std::move(c[b]); st[a] = st[b]; len[a] = len[b]; st[b] = -1; sx_assert(!c[b] && c[b].length == 0, "a moved chunk is empty"); break; case 2: c[a].clear(); st[a] = -1; sx_assert(!c[a] && c[a].address == 0 && c[a].length == 0, "a cleared chunk is empty"); break; case 3: { BufferChunk t(c[b]); BufferChunk u(std::move(t)); sx_assert(u == c[b], "a copy is equal"); c[a] = u; st[a] = st[b]; len[a] = len[b]; break; } case 4: std::swap(c[a], c[b]); std::swap(st[a], st[b]); std::swap(len[a], len[b]); break; } chk(); }
    } sx_cover("end"); }
// the alias of an address in a circular buffer is the other address of the same byte
SX_HARNESS(h_chunk_alias) { size_t A = sx_range("A", 4096, (size_t)1 << 47), L = sx_range("L", 1, (size_t)1 << 40); SharedBuffer s(A, L, std::make_shared<int>(0)); s.setAlias(A + L); size_t o = sx_u64("offset"), so = sx_u64("sub"), sl = sx_u64("sublen"); sx_assume((o < 2 * L) & (so < L) & (sl >= 1) & (sl <= L - so)); bool nested = sx_pick("nested", 0, 1); if (nested) sx_assume((o >= so) & (o < so + sl)); SharedBuffer sub = nested ? SharedBuffer(A + so, sl, s) : s;
    BufferChunk c{ManagedBuffer(sub)}; c.address = A + o; size_t al = c.getAlias(); sx_assert((al >= A) & (al < A + 2 * L), "the alias lies in the double mapping"); sx_assert((al == A + o + L) | (al + L == A + o), "the alias is the same byte"); sx_assert(c.getEnd() == c.address + c.length, "the end"); BufferChunk p(size_t(4)); sx_assert(p.getAlias() == 0, "no alias without double mapping"); sx_cover("end"); }
// elements, setElements and constructors agree on bytes
SX_HARNESS(h_chunk_elems) { static const char *const ty[] = { "uint8", "int16", "complex_float64", "uint8, 3", "int32, 5", "custom, 7" }; static const size_t sz[] = { 1, 2, 16, 3, 20, 7 }; int t = (int)sx_pick("type", 0, 5); size_t n = sx_pick("n", 0, 4); BufferChunk c(DType(ty[t]), n); sx_assert(c.dtype.size() == sz[t] && c.length == n * sz[t] && c.elements() == n && c.getBuffer().getLength() >= c.length, "a chunk of n elements"); size_t k = sx_range("k", 0, 1u << 20); c.setElements(k); sx_assert(c.length == k * sz[t], "setElements sets the length in bytes"); size_t l = sx_range("bytes", 0, 1u << 20); c.length = l; sx_assert(c.elements() == l / sz[t], "elements() counts whole elements"); sx_cover("end"); }
/* ------------------------------------------------------------ C27: buffer conversion */
// every element is the C++ conversion of the input element, the number of elements follows from the dimensions, nothing outside is touched
template <typename I, typename O> static bool ok(I x) { (void)x; return true; }
template <typename F> static bool inr(F x, double lo, double hi) { return x > F(lo) && x < F(hi); }
template <typename I, typename O> static void conv(size_t di, size_t dn, size_t n, size_t part) { DType in(typeid(I), di), out(typeid(O), dn); BufferChunk c(in, n); I *p = c.as<I *>(); size_t np = n * di; sx_bytes(p, np * sizeof(I), "in");
    if (std::is_floating_point<I>::value && std::is_integral<O>::value) for (size_t i = 0; i < np; i++) sx_assume(inr(p[i], std::is_signed<O>::value ? double(std::numeric_limits<O>::min()) / 2 : -0.5, double(std::numeric_limits<O>::max()) / 2)); // what C++ defines
    if (std::is_floating_point<I>::value) for (size_t i = 0; i < np; i++) sx_assume(p[i] == p[i]);
    size_t use = part ? part : n, prim = use * di; bool into = sx_pick("into", 0, 1); BufferChunk o; size_t cnt;
    if (into) { size_t room = sx_pick("room", 0, 6); o = BufferChunk(out, room); memset(o.as<void *>(), 0x55, o.length); try { cnt = c.convert(o, part); } catch (const BufferConvertError &) { sx_assert(room < prim / dn, "a buffer that is large enough is accepted"); for (size_t i = 0; i < o.length; i++) sx_assert(o.as<unsigned char *>()[i] == 0x55, "a refused buffer is untouched"); sx_cover("refused"); return; } sx_assert(room >= prim / dn, "a buffer that is too small is refused"); sx_assert(cnt == prim / dn, "the number of elements written"); for (size_t i = prim / dn * out.size(); i < o.length; i++) sx_assert(o.as<unsigned char *>()[i] == 0x55, "nothing is written beyond the converted elements"); }
    else { o = c.convert(out, part); sx_assert(o.dtype == out, "the result has the requested type"); sx_assert(o.elements() == prim / dn && o.length == prim / dn * out.size(), "the number of elements follows from the dimensions"); sx_assert(o.getEnd() <= o.getBuffer().getEnd(), "the result lies in its buffer"); }
    bool e = true; for (size_t i = 0; i < prim / dn * dn; i++) { O want = static_cast<O>(p[i]); O got; memcpy(&got, o.as<O *>() + i, sizeof got); e = e & !memcmp(&want, &got, sizeof got); } sx_assert(e, "every element is converted"); sx_cover("converted"); }
template <typename I> static void convO(size_t di, size_t dn, size_t n, size_t pt) { switch (sx_pick("to", 0, 5)) { case 0: conv<I, int8_t>(di, dn, n, pt); break; case 1: conv<I, uint16_t>(di, dn, n, pt); break; case 2: conv<I, int32_t>(di, dn, n, pt); break; case 3: conv<I, uint64_t>(di, dn, n, pt); break; case 4: conv<I, int64_t>(di, dn, n, pt); break; case 5: conv<I, uint8_t>(di, dn, n, pt); break; } }
// pairs of dimensions where the input fills whole output elements
static const unsigned char dims[][4] = { {1, 1, 2, 0}, {1, 1, 3, 2}, {2, 1, 1, 0}, {1, 2, 4, 0}, {2, 2, 2, 0}, {2, 2, 2, 1}, {1, 3, 3, 0}, {3, 1, 1, 0}, {4, 2, 1, 0}, {1, 2, 3, 0}, {3, 2, 1, 0} };
SX_HARNESS(h_bconv_int) { const unsigned char *d = dims[sx_pick("dims", 0, 10)]; switch (sx_pick("from", 0, 4)) { case 0: convO<int8_t>(d[0], d[1], d[2], d[3]); break; case 1: convO<uint16_t>(d[0], d[1], d[2], d[3]); break; case 2: convO<int32_t>(d[0], d[1], d[2], d[3]); break; case 3: convO<uint64_t>(d[0], d[1], d[2], d[3]); break; case 4: convO<int64_t>(d[0], d[1], d[2], d[3]); break; } sx_cover("end"); }
SX_HARNESS(h_bconv_float) { const unsigned char *d = dims[sx_pick("dims", 0, 10)]; switch (sx_pick("types", 0, 7)) { case 0: conv<float, double>(d[0], d[1], d[2], d[3]); break; case 1: conv<double, float>(d[0], d[1], d[2], d[3]); break; case 2: conv<float, int16_t>(d[0], d[1], d[2], d[3]); break; case 3: conv<int16_t, float>(d[0], d[1], d[2], d[3]); break; case 4: conv<double, int32_t>(d[0], d[1], d[2], d[3]); break; case 5: conv<int32_t, double>(d[0], d[1], d[2], d[3]); break; case 6: conv<uint8_t, float>(d[0], d[1], d[2], d[3]); break; case 7: conv<float, uint8_t>(d[0], d[1], d[2], d[3]); break; } sx_cover("end"); }
// real to complex, complex to complex, complex to a pair of reals
template <typename I, typename O> static void cplx(int how) { const unsigned char *d = dims[sx_pick("dims", 0, 10)]; size_t di = d[0], dn = d[1], n = d[2], use = d[3] ? d[3] : n, prim = use * di, outn = prim / dn; bool into = sx_pick("into", 0, 1); bool e = true;
    if (how == 0) { BufferChunk c(DType(typeid(I), di), n); I *p = c.as<I *>(); sx_bytes(p, c.length, "in"); DType t(typeid(std::complex<O>), dn); BufferChunk o; if (into) { o = BufferChunk(t, outn); sx_assert(c.convert(o, d[3]) == outn, "count"); } else o = c.convert(t, d[3]); sx_assert(o.elements() == outn && o.dtype == t, "elements and type"); for (size_t i = 0; i < outn * dn; i++) e = e & (o.as<std::complex<O> *>()[i].real() == O(p[i])) & (o.as<std::complex<O> *>()[i].imag() == O(0)); }
    else { BufferChunk c(DType(typeid(std::complex<I>), di), n); auto *p = c.as<std::complex<I> *>(); sx_bytes(p, c.length, "in");
        if (how == 1) { DType t(typeid(std::complex<O>), dn); BufferChunk o; if (into) { o = BufferChunk(t, outn); sx_assert(c.convert(o, d[3]) == outn, "count"); } else o = c.convert(t, d[3]); sx_assert(o.elements() == outn && o.dtype == t && o.getEnd() <= o.getBuffer().getEnd(), "elements and type"); for (size_t i = 0; i < outn * dn; i++) e = e & (o.as<std::complex<O> *>()[i].real() == O(p[i].real())) & (o.as<std::complex<O> *>()[i].imag() == O(p[i].imag())); }
        else { DType t(typeid(O), dn); BufferChunk r, m; if (into) { r = BufferChunk(t, outn); m = BufferChunk(t, outn); sx_assert(c.convertComplex(r, m, d[3]) == outn, "count"); if (outn) { bool f = false; BufferChunk s(t, outn - 1); try { if (sx_pick("short", 0, 1)) c.convertComplex(r, s, d[3]); else c.convertComplex(s, m, d[3]); } catch (const BufferConvertError &) { f = true; } sx_assert(f, "a short output is refused"); } } else { auto q = c.convertComplex(t, d[3]); r = q.first; m = q.second; } sx_assert(r.elements() == outn && m.elements() == outn && r.dtype == t && m.dtype == t, "elements and type"); for (size_t i = 0; i < outn * dn; i++) e = e & (r.as<O *>()[i] == O(p[i].real())) & (m.as<O *>()[i] == O(p[i].imag())); } }
    sx_assert(e, "both parts of every element are converted"); }
SX_HARNESS(h_bconv_complex) { int how = (int)sx_pick("how", 0, 2); switch (sx_pick("types", 0, 3)) { case 0: cplx<int16_t, int32_t>(how); break; case 1: cplx<int8_t, int16_t>(how); break; case 2: cplx<int32_t, uint32_t>(how); break; case 3: cplx<int64_t, int8_t>(how); break; } sx_cover("end"); }
// what cannot be converted is refused
SX_HARNESS(h_bconv_none) { static const char *const ty[] = { "custom, 4", "unspecified", "int32", "complex_int32", "float32", "complex_float32" }; int a = (int)sx_pick("in", 0, 5), b = (int)sx_pick("out", 0, 5); BufferChunk c(DType(ty[a]), 2); memset(c.as<void *>(), 0, c.length); bool can = a == b || (a >= 2 && b >= 2 && !((a == 3 || a == 5) && (b == 2 || b == 4))); if ((a < 2) != (b < 2)) can = false; else if (a < 2) { sx_cover("end"); return; } try { BufferChunk o = c.convert(ty[b]); sx_assert(can, "a conversion without meaning is refused"); sx_cover("converted"); } catch (const BufferConvertError &) { sx_assert(!can, "a conversion between numbers is possible"); sx_cover("refused"); } sx_cover("end"); }
/* ------------------------------------------------------------ C11: data types */
struct TD { const char *name; size_t size; bool f, i, s, c; const std::type_info *t; };
static const TD td[] = { {"int8", 1, 0, 1, 1, 0, &typeid(int8_t)}, {"uint8", 1, 0, 1, 0, 0, &typeid(uint8_t)}, {"int16", 2, 0, 1, 1, 0, &typeid(int16_t)}, {"uint16", 2, 0, 1, 0, 0, &typeid(uint16_t)}, {"int32", 4, 0, 1, 1, 0, &typeid(int32_t)}, {"uint32", 4, 0, 1, 0, 0, &typeid(uint32_t)}, {"int64", 8, 0, 1, 1, 0, &typeid(int64_t)}, {"uint64", 8, 0, 1, 0, 0, &typeid(uint64_t)}, {"float32", 4, 1, 0, 0, 0, &typeid(float)}, {"float64", 8, 1, 0, 0, 0, &typeid(double)},
    {"complex_int8", 2, 0, 1, 1, 1, &typeid(std::complex<int8_t>)}, {"complex_uint8", 2, 0, 1, 0, 1, &typeid(std::complex<uint8_t>)}, {"complex_int16", 4, 0, 1, 1, 1, &typeid(std::complex<int16_t>)}, {"complex_uint16", 4, 0, 1, 0, 1, &typeid(std::complex<uint16_t>)}, {"complex_int32", 8, 0, 1, 1, 1, &typeid(std::complex<int32_t>)}, {"complex_uint32", 8, 0, 1, 0, 1, &typeid(std::complex<uint32_t>)}, {"complex_int64", 16, 0, 1, 1, 1, &typeid(std::complex<int64_t>)}, {"complex_uint64", 16, 0, 1, 0, 1, &typeid(std::complex<uint64_t>)}, {"complex_float32", 8, 1, 0, 0, 1, &typeid(std::complex<float>)}, {"complex_float64", 16, 1, 0, 0, 1, &typeid(std::complex<double>)},
    {"custom", 1, 0, 0, 0, 0, nullptr}, {"unspecified", 1, 0, 0, 0, 0, nullptr} };
// every pair of types: the elements keep their value, or the conversion is refused
static void bput(int k, void *p, unsigned i, int re, int im) { switch (k) { case 0: case 1: ((int8_t *)p)[i] = re; break; case 2: case 3: ((int16_t *)p)[i] = re; break; case 4: case 5: ((int32_t *)p)[i] = re; break; case 6: case 7: ((int64_t *)p)[i] = re; break; case 8: ((float *)p)[i] = re; break; case 9: ((double *)p)[i] = re; break; default: bput(k - 10, p, 2 * i, re, 0); bput(k - 10, p, 2 * i + 1, im, 0); } }
static double bget(int k, const void *p, unsigned i) { switch (k) { case 0: case 1: return ((int8_t *)p)[i]; case 2: case 3: return ((int16_t *)p)[i]; case 4: case 5: return ((int32_t *)p)[i]; case 6: case 7: return (double)((int64_t *)p)[i]; case 8: return ((float *)p)[i]; default: return ((double *)p)[i]; } }
SX_HARNESS(h_bconv_all) { int a = (int)sx_pick("in", 0, 19), b = (int)sx_pick("out", 0, 19); int V[2][2] = { { sx_u8("v") & 15, sx_u8("v") & 15 }, { 100, 7 } }; bool ca = a >= 10, cb = b >= 10; BufferChunk c(DType(td[a].name), 2); for (unsigned i = 0; i < 2; i++) bput(a, c.as<void *>(), i, V[i][0], V[i][1]);
    try { BufferChunk o = c.convert(td[b].name); sx_assert(!ca || cb, "a complex number does not become a real one"); sx_assert(o.dtype == DType(td[b].name) && o.elements() == 2 && o.length == 2 * td[b].size, "the result has the elements and the type"); for (unsigned i = 0; i < 2; i++) { if (!cb) sx_assert(bget(b, o.as<const void *>(), i) == V[i][0], "every element keeps its value"); else sx_assert(bget(b - 10, o.as<const void *>(), 2 * i) == V[i][0] && bget(b - 10, o.as<const void *>(), 2 * i + 1) == (ca ? V[i][1] : 0), "every element keeps its value"); } sx_cover("converted"); } catch (const BufferConvertError &) { sx_assert(ca && !cb, "a conversion between numbers is possible"); sx_cover("refused"); } sx_cover("end"); }
SX_HARNESS(h_dtype) { int k = (int)sx_pick("type", 0, 21); const TD &t = td[k]; size_t dim = sx_range("dim", 0, (size_t)1 << 32); DType d(t.name, dim); sx_assert(d.elemSize() == t.size && d.dimension() == dim && d.size() == t.size * dim, "size is element size times dimension"); sx_assert(d.isFloat() == t.f && d.isInteger() == t.i && d.isSigned() == t.s && d.isComplex() == t.c && d.isCustom() == (k == 20) && bool(d) == (k != 21), "the kind of the type"); sx_assert(d.name() == t.name, "the name is canonical");
    if (t.t) { DType e(*t.t, dim); sx_assert(e == d, "by type and by name are equal"); } size_t dim2 = sx_range("dim2", 0, (size_t)1 << 32); DType g = DType::fromDType(d, dim2); sx_assert(g.dimension() == dim2 && g.elemType() == d.elemType() && (g == d) == (dim == dim2) && (g != d) == (dim != dim2), "equal exactly when all attributes match"); sx_cover("end"); }
SX_HARNESS(h_dtype_pairs) { int a = (int)sx_pick("a", 0, 21), b = (int)sx_pick("b", 0, 21); sx_assert((DType(td[a].name) == DType(td[b].name)) == (a == b), "different types are different"); sx_cover("end"); }
static const struct { const char *a, *n; } alias[] = { {"byte", "int8"}, {"char", "int8"}, {"uchar", "uint8"}, {"short", "int16"}, {"ushort", "uint16"}, {"int", "int32"}, {"uint", "uint32"}, {"sint32", "int32"}, {"longlong", "int64"}, {"ulonglong", "uint64"}, {"float", "float32"}, {"double", "float64"}, {"complex64", "complex_float32"}, {"complex128", "complex_float64"}, {"long", "int64"}, {"", "unspecified"} };
SX_HARNESS(h_dtype_alias) { int k = (int)sx_pick("alias", 0, 15); sx_assert(DType(alias[k].a) == DType(alias[k].n) && DType(std::string(alias[k].a)).name() == alias[k].n, "an alias is the type it stands for"); DType u; sx_assert(!u && u.size() == 1, "the default type is one unspecified byte"); sx_cover("end"); }
SX_HARNESS(h_dtype_markup) { int k = (int)sx_pick("type", 0, 21); static const size_t ds[] = { 0, 1, 2, 9, 10, 999, 65536, 4294967295u, 4294967296u, (size_t)-1 / 16 }; size_t dim = ds[sx_pick("dim", 0, 9)]; DType d(td[k].name, dim); sx_assert(DType(d.toMarkup()) == d, "the markup describes the type"); sx_cover("end"); }
// the dimension in a markup: digits only
SX_HARNESS(h_dtype_dim) { unsigned n = (unsigned)sx_pick("n", 0, 3); std::string s(n, 0); if (n) sx_bytes(&s[0], n, "dim"); bool ok = n > 0; size_t v = 0; for (char c : s) { sx_assume((c != 0) & (c != ',')); if (c == ' ' || (c >= 9 && c <= 13)) { sx_cover("space"); return; } /* blanks around the number: unspecified */ if (!(c >= '0' && c <= '9')) ok = false; v = v * 10 + (c - '0'); }
    try { DType d("int16, " + s); sx_assert(ok, "a malformed dimension is refused"); sx_assert(d.dimension() == v && d.size() == 2 * v, "the dimension is the number given"); sx_cover("accepted"); } catch (const DTypeUnknownError &) { sx_assert(!ok, "a number is accepted"); sx_cover("refused"); } sx_cover("end"); }
SX_HARNESS(h_dtype_unknown) { static const char *const bad[] = { "int9", "complex_", "float128x", "int32 ", "in", "u", "complex_custom", ", 2", "foo, 2" }; int k = (int)sx_pick("bad", 0, 8); if (k == 7) { sx_cover("end"); return; } bool f = false; try { DType d{std::string(bad[k])}; } catch (const DTypeUnknownError &) { f = true; } sx_assert(f, "an unknown name is refused"); sx_cover("end"); }
