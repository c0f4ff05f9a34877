// Native side of the harness interface: replays one concrete input sequence against the natively compiled code.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <new>
#include <atomic>
#include <unistd.h>
#include <dlfcn.h>
static std::vector<std::pair<std::string, uint64_t>> *ins; static size_t pos; static bool diverged; static const char *covers[256]; static int nCov; static std::atomic<long> live{0};
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0xA5, n); live++; return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { live--; free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
static uint64_t nextIn(const char *n) { if (pos < ins->size() && (*ins)[pos].first == n) return (*ins)[pos++].second; if (!diverged) printf("DIVERGED at input %zu: asked for %s, have %s\n", pos, n, pos < ins->size() ? (*ins)[pos].first.c_str() : "(end)"); diverged = true; while (pos < ins->size() && (*ins)[pos].first != n) pos++; return pos < ins->size() ? (*ins)[pos++].second : 0; }
static void done(int rc) { printf("COVERS"); { std::set<std::string> t(covers, covers + nCov); for (auto &c : t) printf(" %s", c.c_str()); } printf("\n%s\n", diverged ? "END diverged" : "END"); fflush(stdout); _exit(diverged ? 3 : rc); }
extern "C" {
uint64_t sx_in(const char *n, int bits) { uint64_t v = nextIn(n); return bits < 64 ? v & ((1ull << bits) - 1) : v; }
uint64_t sx_pick(const char *n, uint64_t, uint64_t) { return nextIn(n); }
void sx_bytes(void *p, size_t k, const char *n) { for (size_t i = 0; i < k; i++) ((uint8_t *)p)[i] = (uint8_t)nextIn(n); }
void sx_assume(int c) { if (!c) { printf("ASSUME-FAILED\n"); done(4); } }
void sx_assert(int c, const char *m) { if (!c) sx_fail(m); }
void sx_cover(const char *t) { for (int i = 0; i < nCov; i++) if (!strcmp(covers[i], t)) return; if (nCov < 256) covers[nCov++] = t; }
uint64_t sx_concrete(uint64_t v) { return v; }
void sx_fail(const char *m) { printf("FAIL assert: %s\n", m); fflush(stdout); _exit(1); }
uint64_t sx_live(void) { return (uint64_t)live.load(); }
void sx_trace(const char *m, uint64_t v) { printf("trace %s %lld\n", m, (long long)v); }
int sx_issym(uint64_t) { return 0; } void sx_opt(const char *, uint64_t) {} void sx_sched(void) {} uint64_t sx_choose(uint64_t) { return 0; }
void sx_hb_acquire(const volatile void *) {} void sx_hb_release(const volatile void *) {} void sx_atomic(int) {}
int sx_alive(const void *) { return 1; } int sx_thread_self(void) { return 0; }
void *sx_map_alias(size_t n) { return malloc(2 * n); } size_t sx_objsize(const void *) { return 0; }
}
int main(int argc, char **argv) {
    ins = new std::vector<std::pair<std::string, uint64_t>>(); ins->reserve(100000);
    FILE *f = fopen(argv[2], "r"); char k[64], n[256]; unsigned long long v; while (f && fscanf(f, "%63s", k) == 1) { if (!strcmp(k, "in") && fscanf(f, "%255s %llu", n, &v) == 2) ins->push_back({ n, v }); else { int c; while ((c = fgetc(f)) != EOF && c != '\n') {} } } if (f) fclose(f);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { printf("no entry\n"); return 5; }
    alarm(60); live = 0; fn(); done(0);
}
