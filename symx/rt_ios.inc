// ---- streams: the libstdc++ templates are instantiated from the headers; locale dependent parts are replaced by the "C" behaviour
namespace std {
locale::locale() noexcept : _M_impl(nullptr) {} locale::locale(const locale &o) noexcept : _M_impl(o._M_impl) {} locale::~locale() noexcept {}
const locale &locale::operator=(const locale &o) noexcept { _M_impl = o._M_impl; return *this; }
const locale &locale::classic() { static locale l; return l; }
bool locale::operator==(const locale &) const noexcept { return true; }
size_t locale::id::_M_id() const noexcept { return 0; }
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
locale ios_base::imbue(const locale &) noexcept { return locale(); }
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_call_callbacks(event) throw() {} void ios_base::_M_dispose_callbacks() throw() {}
void ios_base_library_init() {}
static unsigned long fakeCtype[sizeof(ctype<char>) / 8 + 1];
static ctype<char> *theCtype() { auto *c = (ctype<char> *)fakeCtype; if (!c->_M_widen_ok) { for (int i = 0; i < 256; i++) { c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i; } c->_M_widen_ok = 1; c->_M_narrow_ok = 1; } return c; }
void ctype<char>::_M_widen_init() const { theCtype(); }
locale::id ctype<char>::id; template <> locale::id __cxx11::collate<char>::id{};
template <> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = theCtype(); _M_num_put = nullptr; _M_num_get = nullptr; }
template <> locale basic_ios<char>::imbue(const locale &) { return locale(); }
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
template <> basic_ios<char> &basic_ios<char>::copyfmt(const basic_ios<char> &) { return *this; }
typedef basic_ostream<char> OS; typedef basic_istream<char> IS;
static OS &putNum(OS &o, const char *b) { size_t n = strlen(b), w = (size_t)o.width(); o.width(0); char f = o.fill(); bool left = (o.flags() & ios_base::adjustfield) == ios_base::left, internal = (o.flags() & ios_base::adjustfield) == ios_base::internal; (void)internal;
    if (!left) for (size_t i = n; i < w; i++) o.rdbuf()->sputc(f);
    if (o.rdbuf()) o.rdbuf()->sputn(b, n); if (left) for (size_t i = n; i < w; i++) o.rdbuf()->sputc(f); return o; }
static OS &putU(OS &o, unsigned long long v, bool neg) { char b[32]; char *p = b + 31; *p = 0; unsigned base = (o.flags() & ios_base::hex) ? 16 : (o.flags() & ios_base::oct) ? 8 : 10; bool up = o.flags() & ios_base::uppercase;
    do { unsigned d = v % base; *--p = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; } while (v); if (base == 16 && (o.flags() & ios_base::showbase)) { *--p = 'x'; *--p = '0'; } if (neg) *--p = '-'; return putNum(o, p); }
template <> template <> OS &OS::_M_insert(bool v) { return (flags() & boolalpha) ? putNum(*this, v ? "true" : "false") : putU(*this, v, false); }
template <> template <> OS &OS::_M_insert(unsigned long v) { return putU(*this, v, false); }
template <> template <> OS &OS::_M_insert(unsigned long long v) { return putU(*this, v, false); }
template <> template <> OS &OS::_M_insert(long v) { if (flags() & (hex | oct)) return putU(*this, (unsigned long)v, false); return v < 0 ? putU(*this, 0 - (unsigned long)v, true) : putU(*this, v, false); }
template <> template <> OS &OS::_M_insert(long long v) { if (flags() & (hex | oct)) return putU(*this, (unsigned long)v, false); return v < 0 ? putU(*this, 0 - (unsigned long)v, true) : putU(*this, v, false); }
template <> template <> OS &OS::_M_insert(double v) { char b[64]; snprintf(b, 64, (flags() & fixed) ? "%f" : "%g", v); return putNum(*this, b); }
template <> template <> OS &OS::_M_insert(long double v) { return _M_insert((double)v); }
template <> template <> OS &OS::_M_insert(const void *) { return putNum(*this, "0xptr"); }
template <typename T> static IS &getNum(IS &is, T &out) {
    IS::sentry s(is, false); if (!s) return is; auto *sb = is.rdbuf(); int c = sb->sgetc(); bool neg = false, any = false; unsigned long long v = 0; int base = (is.flags() & ios_base::hex) ? 16 : 10;
    if (c == '-' || c == '+') { neg = c == '-'; c = sb->snextc(); }
    for (;; c = sb->snextc()) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (c == -1) { is.setstate(ios_base::eofbit); break; } if (d >= base) break; any = true; v = v * base + d; }
    if (!any) { out = 0; is.setstate(ios_base::failbit); } else out = (T)(neg ? 0 - v : v); return is; }
template <> template <> IS &IS::_M_extract(bool &v) { unsigned long x; getNum(*this, x); v = x; return *this; }
template <> template <> IS &IS::_M_extract(unsigned short &v) { return getNum(*this, v); }
template <> template <> IS &IS::_M_extract(unsigned int &v) { return getNum(*this, v); }
template <> template <> IS &IS::_M_extract(unsigned long &v) { return getNum(*this, v); }
template <> template <> IS &IS::_M_extract(unsigned long long &v) { return getNum(*this, v); }
template <> template <> IS &IS::_M_extract(long &v) { return getNum(*this, v); }
template <> template <> IS &IS::_M_extract(long long &v) { return getNum(*this, v); }
template <> IS &IS::operator>>(int &v) { return getNum(*this, v); }
template <> IS &IS::operator>>(short &v) { return getNum(*this, v); }
template <> template <> IS &IS::_M_extract(double &v) { sx_fail("stream extraction of a double is not modelled"); return *this; }
template <> template <> IS &IS::_M_extract(float &v) { sx_fail("stream extraction of a float is not modelled"); return *this; }
template <> template <> IS &IS::_M_extract(long double &v) { sx_fail("stream extraction of a long double is not modelled"); return *this; }
template <> template <> IS &IS::_M_extract(void *&v) { sx_fail("stream extraction of a pointer is not modelled"); return *this; }
// sentry: skip whitespace without a ctype facet
template <> IS::sentry::sentry(IS &in, bool noskip) : _M_ok(false) { if (in.good()) { if (in.tie()) in.tie()->flush(); if (!noskip && (in.flags() & ios_base::skipws)) { int c = in.rdbuf()->sgetc(); while (c != -1 && isspace(c)) c = in.rdbuf()->snextc(); if (c == -1) { in.setstate(ios_base::eofbit | ios_base::failbit); return; } } }
    if (in.good()) _M_ok = true; else in.setstate(ios_base::failbit); }
template <> IS &ws(IS &in) { int c = in.rdbuf()->sgetc(); while (c != -1 && isspace(c)) c = in.rdbuf()->snextc(); if (c == -1) in.setstate(ios_base::eofbit); return in; }
template <> IS &operator>>(IS &in, __cxx11::basic_string<char> &str) { IS::sentry s(in, false); if (!s) return in; str.erase(); bool any = false; int c = in.rdbuf()->sgetc(); while (c != -1 && !isspace(c)) { str += (char)c; any = true; c = in.rdbuf()->snextc(); } if (c == -1) in.setstate(ios_base::eofbit); if (!any) in.setstate(ios_base::failbit); return in; }
template <> IS &IS::getline(char *s, streamsize n, char d) { sx_fail("istream::getline(char*) is not modelled"); return *this; }
template <> IS &IS::ignore(streamsize n, int_type d) { while (n-- > 0) { int c = rdbuf()->sbumpc(); if (c == -1) { setstate(eofbit); break; } if (c == d) break; } return *this; }
template class basic_string<char>; template class basic_streambuf<char>; template class basic_stringbuf<char>; template class basic_ios<char>;
template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>;
template class basic_stringstream<char>; template class basic_istringstream<char>; template class basic_ostringstream<char>;
template OS &__ostream_insert(OS &, const char *, streamsize);
template OS &operator<<(OS &, char); template OS &operator<<(OS &, const char *); template OS &endl(OS &); template OS &flush(OS &); template OS &ends(OS &);
template IS &getline(IS &, string &, char); template IS &getline(IS &, string &);

ostream cout(nullptr), cerr(nullptr), clog(nullptr);
// ---- futures
__future_base::_Result_base::_Result_base() = default; __future_base::_Result_base::~_Result_base() = default;
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *p, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { while (__atomic_load_n(p, __ATOMIC_SEQ_CST) == v) sx_sched(); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *p, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { while (__atomic_load_n(p, __ATOMIC_SEQ_CST) == v) sx_sched(); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *) {}
}
extern "C" { struct lconv *localeconv() noexcept { static struct lconv l; static char dot[] = ".", none[] = ""; l.decimal_point = dot; l.thousands_sep = none; return &l; }
int sched_get_priority_max(int) noexcept { return 99; } int sched_get_priority_min(int) noexcept { return 1; } int numa_available() { return -1; } int numa_max_node() { return 0; } }
