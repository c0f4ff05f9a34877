// Runtime library for symbolic execution: the parts of the C++/C runtime that are not header code.
#include "symx.h"
#include <new>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <functional>
#include <memory>
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <system_error>
#include <ios>
#include <istream>
#include <ostream>
#include <sstream>
#include <locale>
#include <future>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <cxxabi.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <any>
#include <optional>
#include <clocale>
#include <variant>

#define OVERRIDE(mangled) asm("symx_override." mangled)

// ------------------------------------------------------------ allocation
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new(size_t n, std::align_val_t) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
const std::nothrow_t std::nothrow{};
extern "C" int posix_memalign(void **p, size_t, size_t n) noexcept { *p = malloc(n); return *p ? 0 : ENOMEM; }
extern "C" void *aligned_alloc(size_t, size_t n) noexcept { return malloc(n); }
extern "C" void *memalign(size_t, size_t n) { return malloc(n); }

// ------------------------------------------------------------ exceptions
extern "C" {
struct ExcHdr { void (*dtor)(void *); int refs; int handlers; ExcHdr *next; long pad; const std::type_info *ti; void *adjusted; long pad2; }; // ti at obj-24, adjusted at obj-16
static_assert(sizeof(ExcHdr) == 56, "layout");
static thread_local ExcHdr *caughtTop; static thread_local int uncaughtCount;
static inline ExcHdr *hdrOf(void *o) { return (ExcHdr *)((char *)o - sizeof(ExcHdr)); }
void *__cxa_allocate_exception(size_t n) noexcept { char *p = (char *)malloc(sizeof(ExcHdr) + n); memset(p, 0, sizeof(ExcHdr)); return p + sizeof(ExcHdr); }
void __cxa_free_exception(void *o) noexcept { free(hdrOf(o)); }
static void excRelease(ExcHdr *h) { if (--h->refs == 0) { void *o = (char *)h + sizeof(ExcHdr); if (h->dtor) h->dtor(o); free(h); } }
void __cxa_throw(void *o, std::type_info *ti, void (*d)(void *)) { ExcHdr *h = hdrOf(o); h->ti = ti; h->dtor = d; h->refs = 1; uncaughtCount++; sx_unwind(o, ti); }
void *__cxa_get_exception_ptr(void *o) noexcept { return hdrOf(o)->adjusted; }
void *__cxa_begin_catch(void *o) noexcept { ExcHdr *h = hdrOf(o); int n = h->handlers; if (n < 0) n = -n; if (n == 0 || caughtTop != h) { if (n == 0) { h->next = caughtTop; caughtTop = h; } } h->handlers = n + 1; uncaughtCount--; return h->adjusted; }
void __cxa_end_catch() { ExcHdr *h = caughtTop; if (!h) return; int n = h->handlers;
    if (n < 0) { if (++n == 0) { caughtTop = h->next; } h->handlers = n; return; } // rethrown: stays alive
    if (--n == 0) { caughtTop = h->next; h->handlers = 0; excRelease(h); return; } h->handlers = n; }
void __cxa_rethrow() { ExcHdr *h = caughtTop; if (!h) { sx_fail("rethrow without exception"); } h->handlers = -h->handlers; uncaughtCount++; sx_unwind((char *)h + sizeof(ExcHdr), h->ti); }
void _Unwind_Resume(void *o) { sx_unwind(o, hdrOf(o)->ti); }
void __cxa_call_unexpected(void *) { sx_fail("unexpected exception"); __builtin_trap(); }
int __cxa_guard_acquire(long *g) { volatile char *c = (volatile char *)g; volatile int *busy = (volatile int *)g + 1; sx_hb_acquire(g); if (c[0]) return 0; while (*busy) { sx_wait32(busy, 0, 0); sx_hb_acquire(g); if (c[0]) return 0; } *busy = 1; return 1; }
void __cxa_guard_release(long *g) { ((volatile char *)g)[0] = 1; sx_hb_release(g); *((volatile int *)g + 1) = 0; }
void __cxa_guard_abort(long *g) { sx_hb_release(g); *((volatile int *)g + 1) = 0; }
int __cxa_atexit(void (*)(void *), void *, void *) noexcept { return 0; }
int __cxa_thread_atexit(void (*)(void *), void *, void *) noexcept { return 0; }
int atexit(void (*)(void)) noexcept { return 0; }
void __cxa_pure_virtual() { sx_fail("pure virtual call"); __builtin_trap(); }
void __cxa_deleted_virtual() { sx_fail("deleted virtual call"); __builtin_trap(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
char *__cxa_demangle(const char *n, char *, size_t *, int *st) { if (st) *st = 0; char *r = (char *)malloc(strlen(n) + 1); strcpy(r, n); return r; }
int __gxx_personality_v0(...) { return 0; }
void *__dso_handle = nullptr;
char __libc_single_threaded = 0;
}
bool std::uncaught_exception() noexcept { return uncaughtCount > 0; }
int std::uncaught_exceptions() noexcept { return uncaughtCount; }
void std::terminate() noexcept { sx_fail("std::terminate called"); __builtin_trap(); }
std::terminate_handler std::set_terminate(std::terminate_handler h) noexcept { return h; }
namespace std { namespace __exception_ptr {
exception_ptr::exception_ptr(void *o) noexcept : _M_exception_object(o) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdrOf(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { excRelease(hdrOf(_M_exception_object)); _M_exception_object = nullptr; } }
void *exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const std::type_info *exception_ptr::__cxa_exception_type() const noexcept { return hdrOf(_M_exception_object)->ti; }
} 
exception_ptr current_exception() noexcept { ExcHdr *h = caughtTop; return h ? exception_ptr((void *)((char *)h + sizeof(ExcHdr))) : exception_ptr(); }
void rethrow_exception(exception_ptr e) { void *o = *(void **)&e; ExcHdr *h = hdrOf(o); h->refs++; uncaughtCount++; 
    // a dependent exception: the handler count restarts
    h->handlers = 0; sx_unwind(o, h->ti); }
}
extern "C" __cxxabiv1::__cxa_refcounted_exception *__cxa_init_primary_exception(void *o, std::type_info *ti, void (*d)(void *)) noexcept { ExcHdr *h = hdrOf(o); h->ti = ti; h->dtor = d; h->refs = 0; return (__cxxabiv1::__cxa_refcounted_exception *)h; }

// ------------------------------------------------------------ RTTI
std::type_info::~type_info() {}
bool std::type_info::__is_pointer_p() const { return false; }
bool std::type_info::__is_function_p() const { return false; }
bool std::type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool std::type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
namespace __cxxabiv1 {
__fundamental_type_info::~__fundamental_type_info() {}
__array_type_info::~__array_type_info() {}
__function_type_info::~__function_type_info() {}
bool __function_type_info::__is_function_p() const { return true; }
__enum_type_info::~__enum_type_info() {}
__pbase_type_info::~__pbase_type_info() {}
bool __pbase_type_info::__do_catch(const std::type_info *, void **, unsigned) const { return false; }
bool __pointer_type_info::__pointer_catch(const __pbase_type_info *, void **, unsigned) const { return false; }
__pointer_type_info::~__pointer_type_info() {}
bool __pointer_type_info::__is_pointer_p() const { return true; }
__pointer_to_member_type_info::~__pointer_to_member_type_info() {}
bool __pointer_to_member_type_info::__pointer_catch(const __pbase_type_info *, void **, unsigned) const { return false; }
__class_type_info::~__class_type_info() {}
bool __class_type_info::__do_catch(const std::type_info *, void **, unsigned) const { return false; }
bool __class_type_info::__do_upcast(const __class_type_info *, void **) const { return false; }
bool __class_type_info::__do_upcast(const __class_type_info *, const void *, __upcast_result &) const { return false; }
__class_type_info::__sub_kind __class_type_info::__do_find_public_src(ptrdiff_t, const void *, const __class_type_info *, const void *) const { return __unknown; }
bool __class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info *, const void *, const __class_type_info *, const void *, __dyncast_result &) const { return false; }
__si_class_type_info::~__si_class_type_info() {}
bool __si_class_type_info::__do_upcast(const __class_type_info *, const void *, __upcast_result &) const { return false; }
__class_type_info::__sub_kind __si_class_type_info::__do_find_public_src(ptrdiff_t, const void *, const __class_type_info *, const void *) const { return __unknown; }
bool __si_class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info *, const void *, const __class_type_info *, const void *, __dyncast_result &) const { return false; }
__vmi_class_type_info::~__vmi_class_type_info() {}
bool __vmi_class_type_info::__do_upcast(const __class_type_info *, const void *, __upcast_result &) const { return false; }
__class_type_info::__sub_kind __vmi_class_type_info::__do_find_public_src(ptrdiff_t, const void *, const __class_type_info *, const void *) const { return __unknown; }
bool __vmi_class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info *, const void *, const __class_type_info *, const void *, __dyncast_result &) const { return false; }
static bool sameTI(const std::type_info *a, const std::type_info *b) { return a == b || strcmp(a->name(), b->name()) == 0; }
static bool upTo(const std::type_info *t, const char *obj, const std::type_info *dst, const char **out) {
    if (sameTI(t, dst)) { *out = obj; return true; }
    const std::type_info &m = typeid(*t);
    if (sameTI(&m, &typeid(__si_class_type_info))) return upTo(((const __si_class_type_info *)t)->__base_type, obj, dst, out);
    if (sameTI(&m, &typeid(__vmi_class_type_info))) { auto *v = (const __vmi_class_type_info *)t; for (unsigned i = 0; i < v->__base_count; i++) { auto &b = v->__base_info[i]; long off = b.__offset_flags >> 8; const char *o2 = obj + off; if (b.__offset_flags & 1) o2 = obj + *(const long *)(*(const char *const *)obj + off); if (upTo(b.__base_type, o2, dst, out)) return true; } }
    return false;
}
extern "C" void *__dynamic_cast(const void *src, const __class_type_info *, const __class_type_info *dst, ptrdiff_t) {
    if (!src) return nullptr; const long *vt = *(const long *const *)src; const char *whole = (const char *)src + vt[-2]; const std::type_info *t = (const std::type_info *)vt[-1]; const char *out = nullptr;
    return upTo(t, whole, dst, &out) ? (void *)out : nullptr;
}
}

// ------------------------------------------------------------ standard exceptions
namespace std {
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
static char *dupS(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
__cow_string::__cow_string() { _M_p = dupS(""); }
__cow_string::__cow_string(const std::string &s) { _M_p = dupS(s.c_str()); }
__cow_string::__cow_string(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = dupS(o._M_p); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = dupS(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
#define ERRC(N, B) N::N(const std::string &s) : B(s) {} N::N(const char *s) : B(s) {} N::~N() noexcept {}
logic_error::logic_error(const std::string &s) : _M_msg(s) {} logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {} logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; } logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return *(const char *const *)&_M_msg; }
runtime_error::runtime_error(const std::string &s) : _M_msg(s) {} runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {} runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return *(const char *const *)&_M_msg; }
ERRC(domain_error, logic_error) ERRC(invalid_argument, logic_error) ERRC(length_error, logic_error) ERRC(out_of_range, logic_error)
ERRC(range_error, runtime_error) ERRC(overflow_error, runtime_error) ERRC(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {} const char *future_error::what() const noexcept { return "future_error"; }
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); } void __throw_domain_error(const char *s) { throw domain_error(s); } void __throw_invalid_argument(const char *s) { throw invalid_argument(s); } void __throw_length_error(const char *s) { throw length_error(s); } void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); } void __throw_range_error(const char *s) { throw range_error(s); } void __throw_overflow_error(const char *s) { throw overflow_error(s); } void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); } void __throw_ios_failure(const char *s) { throw runtime_error(s); } void __throw_ios_failure(const char *s, int) { throw runtime_error(s); } void __throw_system_error(int) { throw runtime_error("system_error"); } void __throw_future_error(int) { throw runtime_error("future_error"); }
void __glibcxx_assert_fail(const char *, int, const char *, const char *c) noexcept { sx_fail("libstdc++ assertion"); __builtin_trap(); }
namespace __detail { 
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *first, _List_node_base *last) noexcept { if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base *t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
static const size_t primes[] = { 1, 2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697 };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : primes) if (p >= n && p > 1) { _M_next_resize = (size_t)(p * _M_max_load_factor); return p; } _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) { size_t mb = ne + ni; if (_M_next_resize == 0 && mb < 11) mb = 11; if (mb >= nb) return { true, _M_next_bkt(mb + 1 > nb * 2 ? mb + 1 : nb * 2) }; _M_next_resize = nb; return { false, 0 }; } return { false, 0 }; }
}
static inline size_t hb_load(const unsigned char *p, int n) { size_t r = 0; --n; do r = (r << 8) + p[n]; while (--n >= 0); return r; }
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) { // as in libsupc++/hash_bytes.cc (64 bit)
    { const unsigned char *b = (const unsigned char *)ptr; for (size_t i = 0; i < len; i++) if (sx_issym(b[i])) { size_t h = seed ^ len; for (size_t k = 0; k < len; k++) h = (h << 9 | h >> 55) ^ b[k]; return h; } } // unknown contents: some function of the bytes (the real one is a product the solver cannot invert)
    static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const unsigned char *buf = (const unsigned char *)ptr; const size_t la = len & ~(size_t)7; const unsigned char *end = buf + la; size_t h = seed ^ (len * mul);
    for (const unsigned char *p = buf; p != end; p += 8) { size_t w = hb_load(p, 8) * mul; const size_t d = (w ^ (w >> 47)) * mul; h ^= d; h *= mul; }
    if ((len & 7) != 0) { const size_t d = hb_load(end, len & 7); h ^= d; h *= mul; } h = (h ^ (h >> 47)) * mul; return h ^ (h >> 47); }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotL(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) { auto *const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) { auto *const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) noexcept {
    _Rb_tree_node_base *&root = header._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; } else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) { auto *const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) { auto *const y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); } }
        else { auto *const y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); } } }
    root->_M_color = _S_black; }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) noexcept {
    _Rb_tree_node_base *&root = header._M_parent, *&leftmost = header._M_left, *&rightmost = header._M_right, *y = z, *x = 0, *xp = 0;
    if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
    else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } } if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } } }
    if (y->_M_color != _S_red) { while (x != root && (x == 0 || x->_M_color == _S_black)) if (x == xp->_M_left) { auto *w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
            if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; } }
        else { auto *w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
            if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; } }
        if (x) x->_M_color = _S_black; }
    return y; }
// system_error / error_category
error_category::~error_category() noexcept {}
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
namespace { struct GenCat : error_category { const char *name() const noexcept override { return "generic"; } std::string message(int) const override { return "error"; } }; }
inline namespace _V2 {
const error_category &system_category() noexcept { static GenCat c; return c; }
const error_category &generic_category() noexcept { static GenCat c; return c; }
}
const error_category &future_category() noexcept { static GenCat c; return c; }
bool __exception_ptr_eq_dummy() { return true; }
}

// ------------------------------------------------------------ C library
extern "C" {
int strcmp(const char *a, const char *b) noexcept { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) noexcept { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strdup(const char *s) noexcept { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isprint(int c) noexcept { return c >= 32 && c < 127; }
int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int ispunct(int c) noexcept { return isprint(c) && !isalnum(c) && c != ' '; }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
static int sxErrno; int *__errno_location() noexcept { return &sxErrno; }
static unsigned long long parseU(const char *s, char **e, int base, bool *neg, bool *any, bool *over) {
    const char *p = s; while (isspace((unsigned char)*p)) p++; *neg = false; if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = (*p == '0') ? 8 : 10;
    unsigned long long v = 0; *any = false; *over = false; for (;; p++) { int d; unsigned char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; *any = true; unsigned long long nv; if (__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)d, &nv)) *over = true; else v = nv; }
    if (e) *e = (char *)(*any ? p : s); return v; }
unsigned long long strtoull(const char *s, char **e, int b) noexcept { bool n, a, o; unsigned long long v = parseU(s, e, b, &n, &a, &o); if (o) { sxErrno = ERANGE; return ~0ull; } return n ? 0 - v : v; }
unsigned long strtoul(const char *s, char **e, int b) noexcept { return strtoull(s, e, b); }
long long strtoll(const char *s, char **e, int b) noexcept { bool n, a, o; unsigned long long v = parseU(s, e, b, &n, &a, &o); if (n) { if (o || v > (1ull << 63)) { sxErrno = ERANGE; return (long long)(1ull << 63); } return (long long)(0 - v); } if (o || v > (~0ull >> 1)) { sxErrno = ERANGE; return (long long)(~0ull >> 1); } return (long long)v; }
long strtol(const char *s, char **e, int b) noexcept { return strtoll(s, e, b); }
long sx_strtol(const char *s, char **e, int b) __asm__("strtol"); long sx_strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long sx_strtoul(const char *s, char **e, int b) __asm__("strtoul"); unsigned long sx_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long long sx_strtoll(const char *s, char **e, int b) __asm__("strtoll"); long long sx_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long long sx_strtoull(const char *s, char **e, int b) __asm__("strtoull"); unsigned long long sx_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) noexcept { return (int)strtoll(s, nullptr, 10); }
double strtod(const char *s, char **e) noexcept { const char *p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++; double v = 0; bool any = false; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); p++; any = true; } if (*p == '.') { p++; double f = 0.1; while (isdigit((unsigned char)*p)) { v += (*p - '0') * f; f /= 10; p++; any = true; } } if (any && (*p == 'e' || *p == 'E')) { const char *q = p + 1; bool en = false; if (*q == '-') { en = true; q++; } else if (*q == '+') q++; if (isdigit((unsigned char)*q)) { int x = 0; while (isdigit((unsigned char)*q)) { x = x * 10 + *q - '0'; q++; } for (int i = 0; i < x; i++) v = en ? v / 10 : v * 10; p = q; } } if (e) *e = (char *)(any ? p : s); return neg ? -v : v; }
float strtof(const char *s, char **e) noexcept { return (float)strtod(s, e); }
long double strtold(const char *s, char **e) noexcept { return strtod(s, e); }
int vsnprintf(char *out, size_t cap, const char *f, va_list ap) noexcept {
    size_t n = 0; auto put = [&](char c) { if (n + 1 < cap) out[n] = c; n++; };
    for (; *f; f++) { if (*f != '%') { put(*f); continue; } f++; bool zero = false; int width = 0, prec = -1, lng = 0; while (*f == '0' || *f == '-' || *f == '+' || *f == '#' || *f == ' ') { if (*f == '0') zero = true; f++; } if (*f == '*') { width = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) width = width * 10 + *f++ - '0'; if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) prec = prec * 10 + *f++ - '0'; } while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f != 'h') lng = 1; f++; }
        char b[72]; int k = 0; if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o' || *f == 'p') { unsigned long v; bool neg = false; if (*f == 'p') { v = (unsigned long)va_arg(ap, void *); } else if (*f == 'd' || *f == 'i') { long s = lng ? va_arg(ap, long) : (long)va_arg(ap, int); neg = s < 0; v = neg ? 0ul - (unsigned long)s : (unsigned long)s; } else v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10; do { b[k++] = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; v /= base; } while (v); if (*f == 'p') { b[k++] = 'x'; b[k++] = '0'; } int tot = k + neg; if (!zero) for (; tot < width; width--) put(' '); if (neg) put('-'); if (zero) for (; tot < width; width--) put('0'); while (k) put(b[--k]); }
        else if (*f == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t l = prec >= 0 ? strnlen(s, prec) : strlen(s); for (size_t i = l; i < (size_t)width; i++) put(' '); for (size_t i = 0; i < l; i++) put(s[i]); }
        else if (*f == 'c') put((char)va_arg(ap, int)); else if (*f == '%') put('%');
        else if (*f == 'f' || *f == 'g' || *f == 'e') { double d = va_arg(ap, double); if (d != d) { put('n'); put('a'); put('n'); continue; } if (d < 0) { put('-'); d = -d; } if (prec < 0) prec = 6; unsigned long ip = (unsigned long)d; double fr = d - (double)ip; do { b[k++] = '0' + ip % 10; ip /= 10; } while (ip); while (k) put(b[--k]); if (*f == 'f' || fr > 0) { put('.'); for (int i = 0; i < prec; i++) { fr *= 10; int dg = (int)fr; put('0' + dg); fr -= dg; if (*f != 'f' && fr <= 0) break; } } } }
    if (cap) out[n < cap ? n : cap - 1] = 0; return (int)n; }
int snprintf(char *o, size_t c, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(o, c, f, ap); va_end(ap); return r; }
int sprintf(char *o, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(o, 1 << 20, f, ap); va_end(ap); return r; }
size_t strnlen(const char *s, size_t n) noexcept { size_t i = 0; while (i < n && s[i]) i++; return i; }
int printf(const char *, ...) { return 0; } int fprintf(FILE *, const char *, ...) { return 0; } int puts(const char *) { return 0; } int fflush(FILE *) { return 0; } int fputs(const char *, FILE *) { return 0; } size_t fwrite(const void *, size_t, size_t n, FILE *) { return n; } int putchar(int c) { return c; } int fputc(int c, FILE *) { return c; }
void abort() noexcept { sx_fail("abort called"); __builtin_trap(); }
void exit(int) noexcept { sx_silent_end(); }
void __assert_fail(const char *e, const char *, unsigned, const char *) noexcept { sx_fail("assert() failed in the code"); __builtin_trap(); }
char *sx_strchr(const char *s, int c) noexcept __asm__("strchr"); char *sx_strrchr(const char *s, int c) noexcept __asm__("strrchr"); char *sx_strstr(const char *h, const char *n) noexcept __asm__("strstr");
char *sx_strchr(const char *s, int c) noexcept { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *sx_strrchr(const char *s, int c) noexcept { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *sx_strstr(const char *h, const char *n) noexcept { size_t l = strlen(n); for (; ; h++) { if (strncmp(h, n, l) == 0) return (char *)h; if (!*h) return nullptr; } }
char *strerror(int) noexcept { return (char *)"error"; }
char *getenv(const char *) noexcept { return nullptr; } char *secure_getenv(const char *) noexcept { return nullptr; }
}

// ------------------------------------------------------------ threads
extern "C" {
struct SxMutex { int locked; int owner; int count; int kind; };
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept { auto *x = (SxMutex *)m; x->locked = 0; x->owner = -1; x->count = 0; x->kind = a ? *(const int *)a : 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept { if (((SxMutex *)m)->locked) sx_fail("mutex destroyed while locked"); return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t *a) noexcept { *(int *)a = 0; return 0; } int pthread_mutexattr_settype(pthread_mutexattr_t *a, int k) noexcept { *(int *)a = k; return 0; } int pthread_mutexattr_destroy(pthread_mutexattr_t *) noexcept { return 0; }
// recursive mutexes initialised statically carry kind in the glibc layout (offset 16)
static bool isRec(pthread_mutex_t *m) { return ((SxMutex *)m)->kind == PTHREAD_MUTEX_RECURSIVE || ((int *)m)[4] == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { auto *x = (SxMutex *)m; sx_sched(); int me = sx_thread_self(); if (x->locked && x->owner == me) { if (isRec(m)) { x->count++; return 0; } sx_fail("self deadlock on a mutex"); } while (x->locked) sx_wait32(&x->locked, 0, 0); x->locked = 1; x->owner = me; x->count = 1; sx_hb_acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { auto *x = (SxMutex *)m; sx_sched(); int me = sx_thread_self(); if (x->locked) { if (x->owner == me && isRec(m)) { x->count++; return 0; } return EBUSY; } x->locked = 1; x->owner = me; x->count = 1; sx_hb_acquire(m); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { auto *x = (SxMutex *)m; if (!x->locked || x->owner != sx_thread_self()) { sx_fail("unlock of a mutex not held by this thread"); } if (--x->count > 0) return 0; sx_hb_release(m); x->locked = 0; x->owner = -1; return 0; }
static long sxClock = 1000000000;
static void clockTo(const struct timespec *t) { long v = t->tv_sec * 1000000000l + t->tv_nsec; if (sxClock < v) sxClock = v; }
struct SxWaiter { int sig; SxWaiter *next; }; struct SxCond { SxWaiter *head; int n; };
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) noexcept { auto *x = (SxCond *)c; x->head = nullptr; x->n = 0; return 0; } int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int timed) { auto *x = (SxCond *)c; SxWaiter w = { 0, nullptr }; SxWaiter **p = &x->head; while (*p) p = &(*p)->next; *p = &w; x->n++; pthread_mutex_unlock(m); int to = sx_wait32(&w.sig, 1, timed); if (to) { SxWaiter **q = &x->head; while (*q && *q != &w) q = &(*q)->next; if (*q) { *q = w.next; x->n--; } } pthread_mutex_lock(m); return to ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condWait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { int r = condWait(c, m, 1); if (r) clockTo(t); return r; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { int r = condWait(c, m, 1); if (r) clockTo(t); return r; }
int pthread_cond_signal(pthread_cond_t *c) noexcept { auto *x = (SxCond *)c; sx_sched(); if (!x->head) return 0; int k = x->n > 1 ? (int)sx_choose(x->n) : 0; SxWaiter **p = &x->head; while (k--) p = &(*p)->next; SxWaiter *w = *p; *p = w->next; x->n--; w->sig = 1; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { auto *x = (SxCond *)c; sx_sched(); while (x->head) { SxWaiter *w = x->head; x->head = w->next; w->sig = 1; } x->n = 0; return 0; }
struct SxRw { int w; int r; int zero; };
int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) noexcept { memset(m, 0, sizeof(SxRw)); return 0; } int pthread_rwlock_destroy(pthread_rwlock_t *) noexcept { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { auto *x = (SxRw *)m; sx_sched(); while (x->w || x->r) { if (x->w) sx_wait32(&x->w, 0, 0); else sx_wait32(&x->r, 0, 0); } x->w = 1; sx_hb_acquire(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept { auto *x = (SxRw *)m; sx_sched(); while (x->w) sx_wait32(&x->w, 0, 0); x->r++; sx_hb_acquire((char *)m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept { auto *x = (SxRw *)m; if (x->w) { sx_hb_release(m); sx_hb_release((char *)m + 1); x->w = 0; } else { sx_hb_release(m); x->r--; } return 0; }
static int spawn(void *(*f)(void *), void *a) { return sx_thread_new(f, a); }
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a) noexcept { *t = (pthread_t)(spawn(f, a) + 1); sx_sched(); return 0; }
int pthread_join(pthread_t t, void **) { sx_thread_join((int)t - 1); return 0; } int pthread_detach(pthread_t) noexcept { return 0; } pthread_t pthread_self() noexcept { return (pthread_t)(sx_thread_self() + 1); }
int sched_yield() noexcept { sx_sched(); return 0; } int usleep(useconds_t) { sx_sched(); return 0; } int nanosleep(const struct timespec *, struct timespec *) { sx_sched(); return 0; } int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { sx_sched(); return 0; }
int pthread_setschedparam(pthread_t, int, const struct sched_param *) noexcept { return 0; } int pthread_getschedparam(pthread_t, int *p, struct sched_param *) noexcept { *p = 0; return 0; }
int clock_gettime(clockid_t, struct timespec *t) noexcept { sxClock += 1000; t->tv_sec = sxClock / 1000000000; t->tv_nsec = sxClock % 1000000000; return 0; }
time_t time(time_t *t) noexcept { time_t v = sxClock / 1000000000; if (t) *t = v; return v; }
int pthread_once(pthread_once_t *o, void (*f)()) { auto *x = (int *)o; sx_sched(); sx_hb_acquire(o); if (*x == 2) return 0; while (*x == 1) { sx_wait32(x, 2, 0); } if (*x == 0) { *x = 1; f(); sx_hb_release(o); *x = 2; } sx_hb_acquire(o); return 0; }
static void *tsd[64]; static int tsdN; int pthread_key_create(pthread_key_t *k, void (*)(void *)) noexcept { *k = tsdN++; return 0; } void *pthread_getspecific(pthread_key_t k) noexcept { return tsd[k * 4 + sx_thread_self()]; } int pthread_setspecific(pthread_key_t k, const void *v) noexcept { tsd[k * 4 + sx_thread_self()] = (void *)v; return 0; }
long sysconf(int) noexcept { return 16; } int getpagesize() noexcept { return 16; }
pid_t getpid() noexcept { return 4242; }
}
namespace std {
thread::_State::~_State() {}
static void *thrMain(void *p) { thread::_State *s = (thread::_State *)p; s->_M_run(); delete s; return nullptr; }
void thread::_M_start_thread(_State_ptr s, void (*)()) { pthread_t t; thread::_State *raw = s.release(); pthread_create(&t, nullptr, thrMain, raw); *(pthread_t *)&_M_id = t; }
void thread::join() { pthread_join(*(pthread_t *)&_M_id, nullptr); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) { sx_sched(); } }
condition_variable::condition_variable() noexcept { pthread_cond_init((pthread_cond_t *)this, nullptr); } condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait((pthread_cond_t *)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t *)this); } void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t *)this); }
namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { sxClock += 1000; return time_point(duration(sxClock)); } system_clock::time_point system_clock::now() noexcept { sxClock += 1000; return time_point(duration(sxClock)); } } }
__thread void *__once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}
#include "rt_ios.inc"
