// Runtime: stand-ins for the parts of the Poco library (not part of /repo) and of the generated sources that the encoded code calls.
#include "symx.h"
#include <Poco/Exception.h>
#include <Poco/StringTokenizer.h>
#include <Poco/Format.h>
#include <Poco/Logger.h>
#include <Poco/Message.h>
#include <Poco/Environment.h>
#include <Poco/Process.h>
#include <Poco/URI.h>
#include <Poco/Hash.h>
#include <Poco/NumberParser.h>
#include <Poco/Bugcheck.h>
#include <Poco/Ascii.h>
#include <Poco/Timespan.h>
#include <Poco/Timestamp.h>
#include <Poco/Any.h>
#include <cstdio>
#include <string>
namespace Poco {
Exception::Exception(int c) : _pNested(nullptr), _code(c) {} Exception::Exception(const std::string &m, int c) : _msg(m), _pNested(nullptr), _code(c) {}
Exception::Exception(const std::string &m, const std::string &a, int c) : _msg(m + ": " + a), _pNested(nullptr), _code(c) {} Exception::Exception(const std::string &m, const Exception &n, int c) : _msg(m), _pNested(n.clone()), _code(c) {}
Exception::Exception(const Exception &e) : std::exception(e), _msg(e._msg), _code(e._code) { _pNested = e._pNested ? e._pNested->clone() : nullptr; } Exception::~Exception() noexcept { delete _pNested; }
Exception &Exception::operator=(const Exception &e) { if (&e != this) { Exception *n = e._pNested ? e._pNested->clone() : nullptr; delete _pNested; _pNested = n; _msg = e._msg; _code = e._code; } return *this; }
const char *Exception::name() const noexcept { return "Exception"; } const char *Exception::className() const noexcept { return "Exception"; } const char *Exception::what() const noexcept { return name(); }
std::string Exception::displayText() const { std::string t = name(); if (!_msg.empty()) { t += ": "; t += _msg; } return t; }
void Exception::extendedMessage(const std::string &a) { if (!a.empty()) { if (!_msg.empty()) _msg += ": "; _msg += a; } } Exception *Exception::clone() const { return new Exception(*this); } void Exception::rethrow() const { throw *this; }
#undef typeid
POCO_IMPLEMENT_EXCEPTION(LogicException, Exception, "Logic exception") POCO_IMPLEMENT_EXCEPTION(AssertionViolationException, LogicException, "Assertion violation")
POCO_IMPLEMENT_EXCEPTION(NullPointerException, LogicException, "Null pointer") POCO_IMPLEMENT_EXCEPTION(NullValueException, LogicException, "Null value") POCO_IMPLEMENT_EXCEPTION(BugcheckException, LogicException, "Bugcheck") POCO_IMPLEMENT_EXCEPTION(InvalidArgumentException, LogicException, "Invalid argument") POCO_IMPLEMENT_EXCEPTION(RangeException, LogicException, "Out of range")
POCO_IMPLEMENT_EXCEPTION(RuntimeException, Exception, "Runtime exception") POCO_IMPLEMENT_EXCEPTION(NotFoundException, RuntimeException, "Not found") POCO_IMPLEMENT_EXCEPTION(TimeoutException, RuntimeException, "Timeout") POCO_IMPLEMENT_EXCEPTION(LibraryLoadException, RuntimeException, "Cannot load library") POCO_IMPLEMENT_EXCEPTION(ExistsException, RuntimeException, "Exists") POCO_IMPLEMENT_EXCEPTION(DataException, RuntimeException, "Data error") POCO_IMPLEMENT_EXCEPTION(SyntaxException, DataException, "Syntax error")
POCO_IMPLEMENT_EXCEPTION(BadCastException, RuntimeException, "Bad cast exception")
void Bugcheck::assertion(const char *, const char *, int, const char *) { sx_fail("Poco assertion violated"); } void Bugcheck::bugcheck(const char *, const char *, int) { sx_fail("Poco bugcheck"); } void Bugcheck::nullPointer(const char *, const char *, int) { sx_fail("Poco null pointer"); }
StringTokenizer::StringTokenizer(const std::string &str, const std::string &sep, int options) { bool trimm = options & TOK_TRIM, ign = options & TOK_IGNORE_EMPTY; std::string token; bool last = false;
    for (char c : str) { if (sep.find(c) != std::string::npos) { if (trimm) trim(token); if (!token.empty() || !ign) _tokens.push_back(token); if (!ign) last = true; token.clear(); } else { token += c; last = false; } }
    if (!token.empty()) { if (trimm) trim(token); if (!token.empty()) _tokens.push_back(token); else if (!ign) _tokens.push_back(std::string()); } else if (last) _tokens.push_back(std::string()); }
StringTokenizer::~StringTokenizer() {}
void StringTokenizer::trim(std::string &t) { size_t f = 0, l = t.size(); while (f < l && Ascii::isSpace(t[f])) f++; while (l > f && Ascii::isSpace(t[l - 1])) l--; t = t.substr(f, l - f); }
template <typename T> static bool anyInt(const Any &a, std::string &o) { if (a.type() == typeid(T)) { o += std::to_string(*UnsafeAnyCast<T>(&a)); return true; } return false; }
static void fmt(std::string &r, const char *f, size_t n, const std::vector<Any> &v) { size_t k = 0;
    for (size_t i = 0; i < n; i++) { if (f[i] != '%') { r += f[i]; continue; } i++; if (i >= n) break; if (f[i] == '%') { r += '%'; continue; } std::string spec; while (i < n && !(f[i] >= 'a' && f[i] <= 'z' && f[i] != 'h' && f[i] != 'l') && f[i] != '?' && f[i] != 'L') spec += f[i++]; char c = i < n ? f[i] : 's'; (void)c; if (k >= v.size()) { r += "[ERRFMT]"; continue; } const Any &a = v[k++];
        if (a.type() == typeid(std::string)) r += *UnsafeAnyCast<std::string>(&a); else if (anyInt<int>(a, r) || anyInt<unsigned>(a, r) || anyInt<size_t>(a, r) || anyInt<long>(a, r) || anyInt<unsigned long long>(a, r) || anyInt<long long>(a, r) || anyInt<short>(a, r) || anyInt<unsigned short>(a, r)) {} else if (a.type() == typeid(double)) { char b[64]; snprintf(b, 64, "%f", *UnsafeAnyCast<double>(&a)); r += b; } else if (a.type() == typeid(char)) r += *UnsafeAnyCast<char>(&a); else if (a.type() == typeid(bool)) r += *UnsafeAnyCast<bool>(&a) ? '1' : '0'; else r += "[ERRFMT]"; } }
void format(std::string &r, const char *f, const std::vector<Any> &v) { fmt(r, f, strlen(f), v); }
void format(std::string &r, const std::string &f, const std::vector<Any> &v) { fmt(r, f.c_str(), f.size(), v); }
std::size_t hash(const std::string &s) { std::size_t h = 0; for (char c : s) h = h * 31 + (unsigned char)c; return h; }
static long loggerMem[sizeof(Logger) / 8 + 1];
Logger &Logger::get(const std::string &) { return *(Logger *)loggerMem; }
Message::Message(const std::string &s, const std::string &t, Priority p) : _source(s), _text(t), _prio(p), _tid(0), _pid(0), _file(nullptr), _line(0), _pMap(nullptr) {} Message::Message(const std::string &s, const std::string &t, Priority p, const char *f, int l) : _source(s), _text(t), _prio(p), _tid(0), _pid(0), _file(f), _line(l), _pMap(nullptr) {} Message::~Message() {}
Timestamp::Timestamp() : _ts(0) {} Timestamp::~Timestamp() {}
std::string Environment::nodeName() { return "node"; } std::string Environment::nodeId() { return "00:11"; } std::string Environment::osName() { return "Linux"; } std::string Environment::osVersion() { return "1"; } std::string Environment::osArchitecture() { return "x86_64"; } unsigned Environment::processorCount() { return 4; }
std::string Environment::get(const std::string &, const std::string &d) { return d; } void Environment::set(const std::string &, const std::string &) {}
ProcessImpl::PIDImpl ProcessImpl::idImpl() { return 4242; }
bool NumberParser::tryParseUnsigned(const std::string &s, unsigned &v, char) { if (s.empty()) return false; unsigned long long x = 0; for (char c : s) { if (c < '0' || c > '9') return false; x = x * 10 + (c - '0'); if (x > 0xffffffffull) return false; } v = (unsigned)x; return true; }
URI::URI() : _port(0) {} URI::URI(const std::string &u) : _port(0), _path(u) { // scheme://host:port/path
    size_t p = u.find("://"); if (p == std::string::npos) return; _scheme = u.substr(0, p); std::string rest = u.substr(p + 3); size_t s = rest.find('/'); _path = s == std::string::npos ? "" : rest.substr(s); std::string au = rest.substr(0, s); size_t c = au.rfind(':'); if (c != std::string::npos) { unsigned v = 0; NumberParser::tryParseUnsigned(au.substr(c + 1), v, 0); _port = (unsigned short)v; au = au.substr(0, c); } _host = au; }
URI::URI(const std::string &sc, const std::string &au, const std::string &p) : _scheme(sc), _host(au), _port(0), _path(p) {} URI::~URI() {} unsigned short URI::getPort() const { return _port; } void URI::setHost(const std::string &h) { _host = h; } void URI::setPort(unsigned short p) { _port = p; } void URI::setScheme(const std::string &s) { _scheme = s; }
std::string URI::toString() const { std::string r = _scheme + "://" + _host; if (_port) r += ":" + std::to_string(_port); if (!_path.empty() && _path[0] != '/') r += '/'; return r + _path; }
}
struct AsciiTab { int v[128]; constexpr AsciiTab() : v() { for (int c = 0; c < 128; c++) { int p = 0; if (c < 32 || c == 127) p |= 1; if (c == 32 || (c >= 9 && c <= 13)) p |= 2; if (c > 32 && c < 127 && !((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) p |= 4; if (c >= '0' && c <= '9') p |= 8 | 16; if ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) p |= 16; if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) p |= 32; if (c >= 'a' && c <= 'z') p |= 64; if (c >= 'A' && c <= 'Z') p |= 128; if (c > 32 && c < 127) p |= 256; if (c >= 32 && c < 127) p |= 512; v[c] = p; } } };
extern const AsciiTab sxAscii __asm__("_ZN4Poco5Ascii20CHARACTER_PROPERTIESE"); constexpr AsciiTab sxAscii{};
