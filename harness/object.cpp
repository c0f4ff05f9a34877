#include "symx.h"
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Callable.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Exception.hpp>
#include <complex>
#include <limits>
#include <cstring>
#include <cmath>
using namespace Pothos;
template <typename T> static T any(const char *n) { T v; sx_bytes(&v, sizeof v, n); return v; }
/* ------------------------------------------------------------ C20: conversions keep the value or are refused */
// mathematical comparison of integers of different signedness
template <typename A, typename B> static bool eqv(A a, B b) { return (a < 0) == (b < 0) && (unsigned long long)a == (unsigned long long)b; }
template <typename B> static bool fits(long long a) { return std::is_signed<B>::value ? a >= (long long)std::numeric_limits<B>::min() && a <= (long long)std::numeric_limits<B>::max() : a >= 0 && (unsigned long long)a <= (unsigned long long)std::numeric_limits<B>::max(); }
template <typename B> static bool fits(unsigned long long a) { return a <= (unsigned long long)std::numeric_limits<B>::max(); }
template <typename A, typename B> static void i2i() { A a = any<A>("v"); typedef typename std::conditional<std::is_signed<A>::value, long long, unsigned long long>::type W; bool ok = fits<B>(W(a)); try { B b = Object(a).convert<B>(); sx_assert(ok, "a value which does not fit is refused"); sx_assert(eqv(W(a), b), "a converted integer has the same value"); sx_cover("converted"); } catch (const Exception &) { sx_assert(!ok, "a value which fits is converted"); sx_cover("refused"); } }
template <typename A> static void fromInt() { switch (sx_pick("to", 0, 10)) { case 0: i2i<A, char>(); break; case 1: i2i<A, signed char>(); break; case 2: i2i<A, unsigned char>(); break; case 3: i2i<A, short>(); break; case 4: i2i<A, unsigned short>(); break; case 5: i2i<A, int>(); break; case 6: i2i<A, unsigned>(); break; case 7: i2i<A, long>(); break; case 8: i2i<A, unsigned long>(); break; case 9: i2i<A, long long>(); break; case 10: i2i<A, unsigned long long>(); break; } }
SX_HARNESS(h_conv_int) { switch (sx_pick("from", 0, 10)) { case 0: fromInt<char>(); break; case 1: fromInt<signed char>(); break; case 2: fromInt<unsigned char>(); break; case 3: fromInt<short>(); break; case 4: fromInt<unsigned short>(); break; case 5: fromInt<int>(); break; case 6: fromInt<unsigned>(); break; case 7: fromInt<long>(); break; case 8: fromInt<unsigned long>(); break; case 9: fromInt<long long>(); break; case 10: fromInt<unsigned long long>(); break; } sx_cover("end"); }
// floating point to integer: truncation when it fits, refusal when it does not (also NaN and infinity)
template <typename F, typename B> static void f2i() { F a = any<F>("v"); double d = a, hi = std::numeric_limits<B>::max() == std::numeric_limits<unsigned long long>::max() ? 18446744073709551616.0 : double((unsigned long long)(std::numeric_limits<B>::max()) + 1), lo = double(std::numeric_limits<B>::min()); bool in = d >= lo && d < hi, clear = in && (d <= hi - 1 || hi > 9007199254740992.0);
    try { B b = Object(a).convert<B>(); sx_assert(in || (lo == 0 && d > -1 && d < hi), "a value which does not fit is refused"); if (in) sx_assert(b == B(d), "a float is truncated to an integer"); sx_cover("converted"); } catch (const Exception &) { sx_assert(!clear, "a value which fits is converted"); sx_cover("refused"); } }
template <typename F> static void fromF() { switch (sx_pick("to", 0, 8)) { case 0: f2i<F, char>(); break; case 1: f2i<F, unsigned char>(); break; case 2: f2i<F, short>(); break; case 3: f2i<F, unsigned short>(); break; case 4: f2i<F, int>(); break; case 5: f2i<F, unsigned>(); break; case 6: f2i<F, long>(); break; case 7: f2i<F, long long>(); break; case 8: f2i<F, unsigned long long>(); break; } }
SX_HARNESS(h_conv_f2i) { if (sx_pick("from", 0, 1)) fromF<float>(); else fromF<double>(); sx_cover("end"); }
template <typename A> static void i2f() { A a = any<A>("v"); double d = Object(a).convert<double>(); sx_assert(d == double(a), "an integer converts to the nearest double"); float f = Object(a).convert<float>(); sx_assert(f == float(a), "an integer converts to the nearest float"); auto c = Object(a).convert<std::complex<double>>(); sx_assert(c.real() == double(a) && c.imag() == 0, "an integer converts to a complex number"); }
SX_HARNESS(h_conv_i2f) { switch (sx_pick("from", 0, 5)) { case 0: i2f<unsigned char>(); break; case 1: i2f<short>(); break; case 2: i2f<int>(); break; case 3: i2f<unsigned>(); break; case 4: i2f<long long>(); break; case 5: i2f<unsigned long long>(); break; } sx_cover("end"); }
SX_HARNESS(h_conv_f2f) { if (sx_pick("dir", 0, 1)) { float a = any<float>("v"); sx_assume(!(a - a != 0) || a != a); double d = Object(a).convert<double>(); sx_assert(d == double(a) || a != a, "float to double is exact"); } else { double a = any<double>("v"); bool over = a > double(std::numeric_limits<float>::max()) || a < -double(std::numeric_limits<float>::max()); try { float f = Object(a).convert<float>(); sx_assert(!over, "a double beyond the float range is refused"); sx_assert(f == float(a) || a != a, "double to float rounds"); sx_cover("converted"); } catch (const Exception &) { sx_assert(over, "a double within the float range is converted"); sx_cover("refused"); } } sx_cover("end"); }
// complex to real: only without an imaginary part
template <typename T> static void c2r() { T re = any<T>("re"), im = any<T>("im"); std::complex<T> c(re, im); try { double d = Object(c).convert<double>(); sx_assert(im == 0, "an imaginary part is not dropped silently"); sx_assert(d == double(re) || re != re, "the real part is kept"); sx_cover("converted"); } catch (const Exception &) { sx_assert(!(im == 0) || re - re != 0, "a complex number without imaginary part converts"); sx_cover("refused"); }
    auto e = Object(c).convert<std::complex<double>>(); sx_assert((e.real() == double(re) || re != re) && (e.imag() == double(im) || im != im), "complex to complex keeps both parts"); }
SX_HARNESS(h_conv_c2r) { if (sx_pick("from", 0, 1)) c2r<float>(); else c2r<double>(); sx_cover("end"); }
// integer based complex numbers convert to floating point ones through both parts
template <typename T> static void ci() { T re = any<T>("re"), im = any<T>("im"); auto e = Object(std::complex<T>(re, im)).convert<std::complex<double>>(); sx_assert(e.real() == double(re) && e.imag() == double(im), "both parts are converted"); }
SX_HARNESS(h_conv_ci) { switch (sx_pick("from", 0, 3)) { case 0: { signed char re = any<signed char>("re"), im = any<signed char>("im"); auto e = Object(std::complex<signed char>(re, im)).convert<std::complex<long long>>(); sx_assert(e.real() == re && e.imag() == im, "both parts are converted"); break; } case 1: { short re = any<short>("re"), im = any<short>("im"); auto e = Object(std::complex<short>(re, im)).convert<std::complex<long long>>(); sx_assert(e.real() == re && e.imag() == im, "both parts are converted"); break; } case 2: { int re = any<int>("re"), im = any<int>("im"); auto e = Object(std::complex<int>(re, im)).convert<std::complex<long long>>(); sx_assert(e.real() == re && e.imag() == im, "both parts are converted"); break; } case 3: ci<long long>(); break; } sx_cover("end"); }
// complex to a smaller complex: refused when a part does not fit
SX_HARNESS(h_conv_c2c) { typedef std::complex<float> cf; double re = any<double>("re"), im = any<double>("im"), m = double(std::numeric_limits<float>::max()); auto ov = [&](double x) { return x > m || x < -m; }; auto rnd = [](double x, float y) { return y == float(x) || x != x; }; unsigned k = (unsigned)sx_pick("kind", 0, 3); bool over = ov(re) || (k && ov(im));
    try { switch (k) { case 0: { auto c = Object(re).convert<cf>(); sx_assert(rnd(re, c.real()) && c.imag() == 0, "a real number converts to a complex one"); break; } case 1: { auto c = Object(std::complex<double>(re, im)).convert<cf>(); sx_assert(rnd(re, c.real()) && rnd(im, c.imag()), "both parts are rounded"); break; }
      case 2: { auto v = Object(std::vector<std::complex<double>>(1, std::complex<double>(re, im))).convert<std::vector<cf>>(); sx_assert(v.size() == 1 && rnd(re, v[0].real()) && rnd(im, v[0].imag()), "both parts are rounded"); break; } default: { auto v = Object(std::vector<double>{re, im}).convert<std::vector<cf>>(); sx_assert(v.size() == 2 && rnd(re, v[0].real()) && rnd(im, v[1].real()) && v[0].imag() == 0 && v[1].imag() == 0, "real numbers convert to complex ones"); } }
      sx_assert(!over, "a part beyond the range is refused"); sx_cover("converted"); } catch (const Exception &) { sx_assert(over, "parts within the range are converted"); sx_cover("refused"); } sx_cover("end"); }
// a vector of complex numbers widens without loss
SX_HARNESS(h_conv_cvec) { float re = any<float>("re"), im = any<float>("im"); std::vector<std::complex<float>> v(2, std::complex<float>(re, im)); v[1] = std::complex<float>(im, re); auto w = Object(v).convert<std::vector<std::complex<double>>>(); sx_assert(w.size() == 2 && (w[0].real() == re || re != re) && (w[0].imag() == im || im != im) && (w[1].real() == im || im != im) && (w[1].imag() == re || re != re), "widening a complex vector keeps all parts"); sx_cover("end"); }
// vectors convert element by element, with the same refusals
template <typename A, typename B> static void v2v() { unsigned n = (unsigned)sx_pick("n", 0, 2); std::vector<A> v; bool ok = true; typedef typename std::conditional<std::is_signed<A>::value, long long, unsigned long long>::type W; for (unsigned i = 0; i < n; i++) { v.push_back(any<A>("v")); if (!fits<B>(W(v[i]))) ok = false; } try { auto w = Object(v).convert<std::vector<B>>(); sx_assert(ok, "a vector with a value which does not fit is refused"); sx_assert(w.size() == n, "the size is kept"); for (unsigned i = 0; i < n; i++) sx_assert(eqv(W(v[i]), w[i]), "elements are converted"); sx_cover("converted"); } catch (const Exception &) { sx_assert(!ok, "a vector whose values fit is converted"); sx_cover("refused"); } }
SX_HARNESS(h_conv_vec) { switch (sx_pick("types", 0, 8)) { case 0: v2v<long long, int>(); break; case 1: v2v<long long, unsigned long long>(); break; case 2: v2v<unsigned long long, long long>(); break; case 3: v2v<long long, unsigned char>(); break; case 4: v2v<unsigned, int>(); break; case 5: v2v<short, unsigned short>(); break; case 6: v2v<unsigned long, short>(); break; case 7: v2v<int, long long>(); break; case 8: v2v<unsigned char, unsigned>(); break; } sx_cover("end"); }
SX_HARNESS(h_conv_str) { unsigned n = (unsigned)sx_pick("n", 0, 3); std::string s(n, 0); if (n) sx_bytes(&s[0], n, "s"); auto v = Object(s).convert<std::vector<char>>(); sx_assert(std::string(v.begin(), v.end()) == s && Object(v).convert<std::string>() == s, "strings and byte vectors convert both ways"); std::vector<unsigned char> u(s.begin(), s.end()); sx_assert(Object(u).convert<std::string>() == s, "byte vector to string"); sx_cover("end"); }
// canConvert tells exactly when convert works, and nothing converts to an unrelated type
template <typename A> static void can(const A &a) { Object o(a); bool c[4] = { o.canConvert(typeid(int)), o.canConvert(typeid(std::string)), o.canConvert(typeid(double)), o.canConvert(typeid(std::vector<int>)) }, d[4]; for (int i = 0; i < 4; i++) { d[i] = true; try { switch (i) { case 0: o.convert<int>(); break; case 1: o.convert<std::string>(); break; case 2: o.convert<double>(); break; case 3: o.convert<std::vector<int>>(); break; } } catch (const ObjectConvertError &) { d[i] = false; } } for (int i = 0; i < 4; i++) sx_assert(c[i] == d[i], "canConvert agrees with convert"); sx_assert(o.canConvert(typeid(Object)) && o.canConvert(typeid(A)), "always convertible to itself and to Object"); sx_assert(o.convert<A>() == a && o.convert<Object>().template extract<A>() == a, "identity conversion"); }
SX_HARNESS(h_conv_can) { switch (sx_pick("kind", 0, 4)) { case 0: can<int>(5); break; case 1: can<std::string>("x"); break; case 2: can<double>(2.0); break; case 3: can<std::vector<short>>(std::vector<short>(1, 3)); break; case 4: can<std::complex<float>>(std::complex<float>(1, 0)); break; } sx_cover("end"); }
/* ------------------------------------------------------------ C19: object handles share one value until the last one goes */
struct Pay { static int made, gone; int v; explicit Pay(int x) : v(x) { made++; } Pay(const Pay &o) : v(o.v) { made++; } Pay(Pay &&o) : v(o.v) { made++; } ~Pay() { gone++; v = -1; } };
int Pay::made, Pay::gone;
// three handles, each null or referring to one of two values; any operations between any of them
SX_HARNESS(h_obj_ops) {
    Pay::made = Pay::gone = 0; { int v0 = (int)sx_u32("v0"), v1 = (int)sx_u32("v1"); Object o[3]; int m[3] = {-1, -1, -1}; // model: which value each handle refers to
    o[0] = Object::emplace<Pay>(v0); m[0] = 0; if (sx_pick("shared", 0, 1)) { o[1] = o[0]; m[1] = 0; } else { o[1] = Object::emplace<Pay>(v1); m[1] = 1; }
    bool two = m[1] == 1;
    for (int s = 0; s < 3; s++) {
        int op = (int)sx_pick("op", 0, 5), a = (int)sx_pick("a", 0, 2), b = op < 5 ? (int)sx_pick("b", 0, 2) : 0;
        if (op == 0) { o[a] = o[b]; m[a] = m[b]; if (a == b) sx_cover("self"); }
        else if (op == 1) { o[a] = std::move(o[b]); if (a != b) { m[a] = m[b]; m[b] = -1; } else { m[a] = o[a] ? m[a] : -1; } } // a self-move may leave the handle null or as it was
        else if (op == 2) { Object t(o[b]); sx_assert(!t == (m[b] < 0), "a copy refers to the same value"); sx_assert(!t.unique(), "a copied handle is not unique"); o[a] = std::move(t); m[a] = m[b]; }
        else if (op == 3) { Object t(std::move(o[b])); int k = m[b]; m[b] = -1; sx_assert(!o[b], "a moved handle is null"); o[a] = t; m[a] = k; }
        else if (op == 4) { std::swap(o[a], o[b]); std::swap(m[a], m[b]); }
        else { o[a] = Object(); m[a] = -1; }
        int n[2] = {0, 0}; for (int i = 0; i < 3; i++) if (m[i] >= 0) n[m[i]]++;
        sx_assert(Pay::made - Pay::gone == (n[0] > 0) + (two && n[1] > 0), "a value lives exactly as long as a handle refers to it"); if (n[0] == 0) sx_cover("gone");
        for (int i = 0; i < 3; i++) { sx_assert(bool(o[i]) == (m[i] >= 0), "a handle is null exactly when it refers to nothing"); sx_assert(o[i].unique() == (m[i] >= 0 && n[m[i]] == 1), "unique exactly for a single handle");
            if (m[i] >= 0) { sx_assert(o[i].extract<Pay>().v == (m[i] ? v1 : v0), "every handle shows the value"); for (int j = 0; j < 3; j++) sx_assert((o[i] == o[j]) == (m[j] == m[i]), "handles are equal exactly when they share the value"); } }
    } }
    sx_assert(Pay::made == Pay::gone, "every value is destroyed once"); sx_cover("end");
}
// a handle inside the value it is assigned over
SX_HARNESS(h_obj_inner) {
    Pay::made = Pay::gone = 0; { int v = (int)sx_u32("v"); ObjectVector c; c.push_back(Object::emplace<Pay>(v)); Object o(std::move(c)); ObjectVector &in = o.ref<ObjectVector>();
    switch (sx_pick("how", 0, 2)) { case 0: o = in[0]; break; case 1: o = std::move(in[0]); break; case 2: o = Object(in[0]); break; }
    sx_assert(o.extract<Pay>().v == v && o.unique() && Pay::made - Pay::gone == 1, "an object can be replaced by one of its own elements"); }
    sx_assert(Pay::made == Pay::gone, "every value is destroyed once"); sx_cover("end");
}
template <typename T> static bool refused(Object &o, bool ref) { try { if (ref) o.ref<T>(); else o.extract<T>(); return false; } catch (const ObjectConvertError &) { return true; } }
// extract and ref: exact type only, ref for a single handle only
SX_HARNESS(h_obj_extract) {
    int v = (int)sx_u32("v"), w = (int)sx_u32("w"); int k = (int)sx_pick("kind", 0, 3); Object o; if (k == 1) o = Object(v); else if (k == 2) o = Object(std::string("x")); else if (k == 3) o = Object(double(v));
    bool two = sx_pick("two", 0, 1); Object c; if (two) c = o;
    sx_assert(o.type() == (k == 0 ? typeid(NullObject) : k == 1 ? typeid(int) : k == 2 ? typeid(std::string) : typeid(double)), "type() is the type stored");
    sx_assert(refused<int>(o, false) == (k != 1) && refused<unsigned>(o, false) && refused<std::string>(o, false) == (k != 2) && refused<double>(o, false) == (k != 3), "extract needs the exact type");
    sx_assert(refused<int>(o, true) == (k != 1 || two) && refused<long>(o, true) && refused<std::string>(o, true) == (k != 2 || two), "ref needs the exact type and a single handle");
    if (k == 1) { sx_assert(o.extract<int>() == v, "the value is kept"); if (!two) { o.ref<int>() = w; Object d(o); sx_assert(d.extract<int>() == w && o.extract<int>() == w, "a change through ref is seen by later copies"); sx_cover("changed"); } else { o = Object(w); sx_assert(c.extract<int>() == v, "replacing one handle's value leaves the others"); } }
    if (k == 0) { try { o.extract<NullObject>(); } catch (const Exception &) { sx_fail("a null object holds NullObject"); } sx_cover("null"); }
    sx_cover("end");
}
// copies of one object dropped and read by two threads
struct ObjT { Object o; int v; bool use; };
SX_HARNESS(h_obj_race) {
    Pay::made = Pay::gone = 0; int x = (int)sx_u32("x"); { Object o = Object::emplace<Pay>(x);
    ObjT t[2]; for (int i = 0; i < 2; i++) { t[i].o = o; t[i].use = sx_pick("use", 0, 1); t[i].v = x; } bool keep = sx_pick("keep", 0, 1); if (!keep) o = Object(); int id[2];
    for (int i = 0; i < 2; i++) id[i] = sx_thread_new([](void *p) -> void * { ObjT *t = (ObjT *)p; sx_assert(t->o.extract<Pay>().v == t->v, "the value is there"); if (t->use) { Object c(t->o); Object d(std::move(c)); sx_assert(d.extract<Pay>().v == t->v, "the value is there"); } t->o = Object(); return nullptr; }, &t[i]);
    for (int i = 0; i < 2; i++) sx_thread_join(id[i]);
    sx_assert(Pay::made - Pay::gone == (keep ? 1 : 0), "destroyed exactly once, by the last holder"); if (keep) sx_assert(o.unique(), "unique again"); }
    sx_assert(Pay::made == Pay::gone, "destroyed"); sx_cover("end");
}
// one thread drops its copy after reading; the other changes the value in place as soon as it is alone
SX_HARNESS(h_obj_cow) {
    Object o(int(5)); ObjT t; t.o = o; int id = sx_thread_new([](void *p) -> void * { ObjT *t = (ObjT *)p; sx_assert(t->o.extract<int>() == 5, "an unchanged value is seen"); t->o = Object(); return nullptr; }, &t);
    if (o.unique()) { o.ref<int>() = 6; sx_cover("changed"); } else sx_cover("shared"); sx_thread_join(id); sx_cover("end");
}
/* ------------------------------------------------------------ C21: comparison is an order, equal values have equal hashes */
static int sgn(int x) { return (x > 0) - (x < 0); }
template <typename A, typename B> static int ref_cmp(A a, B b) { // the mathematical order of integers
    bool na = a < 0, nb = b < 0; if (na != nb) return na ? -1 : 1; if (na) return ((long long)a > (long long)b) - ((long long)a < (long long)b); return ((unsigned long long)a > (unsigned long long)b) - ((unsigned long long)a < (unsigned long long)b); }
static void checks(const Object &x, const Object &y, int r) { int c = sgn(x.compareTo(y)), d = sgn(y.compareTo(x)); sx_assert(c == r, "compareTo gives the mathematical order"); sx_assert(d == -r, "compareTo is antisymmetric"); sx_assert(x.equals(y) == (r == 0), "equals agrees"); sx_assert((x < y) == (r < 0), "< agrees"); sx_assert((x > y) == (r > 0), "> agrees"); if (r == 0) sx_cover("equal"); else sx_cover("different"); }
template <typename A, typename B> static void cmpi() { A a = any<A>("a"); B b = any<B>("b"); int r = ref_cmp(a, b); Object x(a), y(b); checks(x, y, r); if (std::is_same<A, B>::value && r == 0) sx_assert(x.hashCode() == y.hashCode(), "equal values have equal hashes"); }
template <typename A> static void cmpA() { switch (sx_pick("to", 0, 8)) { case 0: cmpi<A, signed char>(); break; case 1: cmpi<A, unsigned short>(); break; case 2: cmpi<A, int>(); break; case 3: cmpi<A, unsigned>(); break; case 4: cmpi<A, long>(); break; case 5: cmpi<A, unsigned long>(); break; case 6: cmpi<A, long long>(); break; case 7: cmpi<A, unsigned long long>(); break; case 8: cmpi<A, unsigned char>(); break; } }
SX_HARNESS(h_cmp_int) { switch (sx_pick("from", 0, 8)) { case 0: cmpA<signed char>(); break; case 1: cmpA<unsigned short>(); break; case 2: cmpA<int>(); break; case 3: cmpA<unsigned>(); break; case 4: cmpA<long>(); break; case 5: cmpA<unsigned long>(); break; case 6: cmpA<long long>(); break; case 7: cmpA<unsigned long long>(); break; case 8: cmpA<short>(); break; } sx_cover("end"); }
template <typename F, typename B> static void cmpf() { F a = any<F>("a"); B b = any<B>("b"); double x = double(a), y = double(b); sx_assume(x - x == 0 && y - y == 0); checks(Object(a), Object(b), (x > y) - (x < y)); if (std::is_same<F, B>::value && x == y) sx_assert(Object(a).hashCode() == Object(b).hashCode(), "equal values have equal hashes"); }
SX_HARNESS(h_cmp_float) { switch (sx_pick("types", 0, 4)) { case 0: cmpf<double, double>(); break; case 1: cmpf<float, float>(); break; case 2: cmpf<float, double>(); break; case 3: cmpf<double, int>(); break; case 4: cmpf<float, short>(); break; } sx_cover("end"); }
static std::string anys(const char *n) { unsigned k = (unsigned)sx_pick(n, 0, 3); std::string s(k, 0); if (k) sx_bytes(&s[0], k, n); return s; }
SX_HARNESS(h_cmp_str) { std::string a = anys("a"), b = anys("b"); int r = 0; unsigned i = 0; for (; i < a.size() && i < b.size() && r == 0; i++) r = ((unsigned char)a[i] > (unsigned char)b[i]) - ((unsigned char)a[i] < (unsigned char)b[i]); if (r == 0) r = (a.size() > b.size()) - (a.size() < b.size()); Object x(a), y(b); checks(x, y, r); if (r == 0) sx_assert(x.hashCode() == y.hashCode(), "equal values have equal hashes"); sx_cover("end"); }
// what has no order is reported as such, and the operators still work
struct Odd { int v; };
static Object mk(int k, int v) { switch (k) { case 0: return Object(); case 1: return Object(v); case 2: return Object(std::string("7")); case 3: return Object(std::complex<double>(v, 1)); case 4: return Object(Odd{v}); case 5: return Object(std::complex<float>(3, 0)); default: return Object(double(v)); } }
SX_HARNESS(h_cmp_none) {
    int a = (int)sx_pick("a", 0, 6), b = (int)sx_pick("b", 0, 6); int v = (int)sx_pick("v", 0, 3); Object x = mk(a, v), y = mk(b, 3);
    auto num = [](int k) { return k == 1 || k == 5 || k == 6; }; bool ord = (num(a) && num(b)) || (a == b && (a == 0 || a == 2));
    try { int c = x.compareTo(y); sx_assert(ord, "comparing what has no order fails"); sx_assert(sgn(c) == (a == b && (a == 0 || a == 2) ? 0 : (a == 5 ? 3 : v) < 3 ? -1 : 0), "the order is right"); sx_cover("ordered"); } catch (const ObjectCompareError &) { sx_assert(!ord, "numbers, strings and nulls compare"); sx_cover("refused"); } catch (const Exception &) { sx_fail("a compare that is not possible is reported as such"); }
    try { bool e = x.equals(y), l = x < y, g = x > y; sx_assert(e + l + g == 1, "exactly one of equal, less and greater"); sx_assert(x.equals(x) && !(x < x) && !(x > x), "every object equals itself"); sx_assert((y < x) == g && (y > x) == l && y.equals(x) == e, "the other way round"); Object z(x); sx_assert(z.hashCode() == x.hashCode() && z.equals(x), "a copy is equal and hashes alike"); } catch (const Exception &) { sx_fail("equals and the operators work on all objects"); }
    sx_cover("end");
}
