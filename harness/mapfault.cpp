#include "symx.h"
// The system calls behind mapped memory, with every call allowed to fail and mappings allowed to land elsewhere.
#include <Poco/TemporaryFile.h>
#include <Poco/File.h>
#include <Pothos/Framework/SharedBuffer.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <sys/mman.h>
#include <fcntl.h>
#include <cerrno>
#include <cstdarg>
#include <unistd.h>
#include <sys/syscall.h>
struct Map { size_t a, n; int fd; size_t off; bool rw; }; static Map gM[48]; static int gNM; static int gFds, gNextFd, gFails; static size_t gNext, gHole; static size_t gTrunc; static int gMapN;
static bool gOn; // the stand-ins act only while a harness runs
static int gAlways = -1; // this call fails every time
static bool failing(int pt) { if (pt == gAlways) { errno = 12; return true; } if (gFails <= 0) return false; if (sx_pick("fail", 0, 1)) { gFails--; errno = 12; sx_cover("fault"); return true; } return false; }
static bool freeRange(size_t a, size_t n) { for (int i = 0; i < gNM; i++) if (a < gM[i].a + gM[i].n && gM[i].a < a + n) return false; return true; }
// takes [a, a+n) out of the mappings; returns how many of its bytes were mapped
static size_t cut(size_t a, size_t n) { size_t got = 0; int m = gNM; for (int i = 0; i < m; i++) { Map x = gM[i]; size_t lo = a > x.a ? a : x.a, hi = a + n < x.a + x.n ? a + n : x.a + x.n; if (lo >= hi) continue; got += hi - lo; Map l = x, r = x; l.n = lo - x.a; r.a = hi; r.n = x.a + x.n - hi; r.off += hi - x.a; gM[i] = l; if (r.n) gM[gNM++] = r; } int k = 0; for (int i = 0; i < gNM; i++) if (gM[i].n) gM[k++] = gM[i]; gNM = k; return got; }
extern "C" {
int open64(const char *p, int fl, ...) { if (!gOn) return syscall(SYS_open, p, fl, 0600); if (failing(0)) return -1; gFds++; return gNextFd++; }
int close(int fd) { if (!gOn) return syscall(SYS_close, fd); sx_assert(fd >= 100 && gFds > 0, "only open descriptors are closed"); gFds--; return 0; }
int ftruncate64(int fd, off64_t n) noexcept { if (!gOn) return syscall(SYS_ftruncate, fd, n); sx_assert(fd >= 100, "open descriptor"); if (failing(1)) return -1; gTrunc = n; return 0; }
void *mmap64(void *hint, size_t n, int prot, int flags, int fd, off64_t off) noexcept { if (!gOn) return (void *)syscall(SYS_mmap, hint, n, prot, flags, fd, off); if (failing(fd < 0 ? 2 : gMapN++ % 2 + 3)) return MAP_FAILED; size_t a = (size_t)hint; if (!a || (!(flags & MAP_FIXED) && (!freeRange(a, n) || (gFails > 0 && sx_pick("elsewhere", 0, 1) && (gFails--, sx_cover("elsewhere"), true))))) { a = gNext; gNext += n + 0x10000; } if (flags & MAP_FIXED) cut(a, n); gM[gNM].a = a; gM[gNM].n = n; gM[gNM].fd = fd; gM[gNM].off = off; gM[gNM].rw = (prot & PROT_WRITE) && (flags & MAP_SHARED); gNM++; return (void *)a; }
int munmap(void *p, size_t n) noexcept { if (!gOn) return syscall(SYS_munmap, p, n); sx_assert(cut((size_t)p, n) == n, "only the library's own mappings are unmapped, each once"); return 0; }
}
namespace Poco { TemporaryFile::TemporaryFile() {} TemporaryFile::~TemporaryFile() {} FileImpl::FileImpl() {} FileImpl::~FileImpl() {} File::File() {} File::~File() {} File::File(const std::string &p) { _path = p; } File::FileSize File::getSize() const { return 4096; } bool File::exists() const { return true; } bool File::canRead() const { return true; } bool File::canWrite() const { return true; } }
using namespace Pothos;
static void reset(int fails) { gNM = 0; gFds = 0; gNextFd = 100; gNext = 0x7000000; gFails = fails; gOn = true; }
static const Map *find(size_t a) { for (int i = 0; i < gNM; i++) if (gM[i].a == a) return &gM[i]; return nullptr; }
// circular buffers: either a complete double mapping, or an error; and nothing is left behind
static void circ(size_t n) { { SharedBuffer b; bool ok = false;
      try { b = SharedBuffer::makeCirc(n); ok = true; } catch (const SharedBufferError &) {}
      if (ok) { sx_assert(b.getLength() >= n && b.getLength() % 16 == 0, "the length is rounded up to whole pages"); const Map *l = find(b.getAddress()), *h = find(b.getAddress() + b.getLength()); sx_assert(l && h, "both halves of the circular buffer are mapped where the buffer says"); sx_assert(l->n == b.getLength() && h->n == b.getLength() && l->fd == h->fd && l->fd >= 100 && l->off == h->off && l->rw && h->rw, "both halves show the same memory"); sx_assert(gTrunc >= l->off + l->n, "the backing file is large enough"); sx_assert(b.getAlias() == b.getAddress() + b.getLength(), "the alias is the second half"); sx_assert(gNM == 2, "nothing else stays mapped"); sx_cover("made"); }
      else { sx_cover("failed"); sx_assert(gNM == 0, "a failed allocation leaves no mapping"); sx_assert(gFds == 0, "a failed allocation leaves no open descriptor"); } }
    sx_assert(gNM == 0, "no mapping is left behind"); sx_assert(gFds == 0, "no descriptor is left open"); gOn = false; sx_cover("end"); }
SX_HARNESS(h_map_circ) { reset(SX_DEEP ? 4 : 3); circ(sx_pick("n", 0, 2) * 15 + 1); }
SX_HARNESS(h_map_always) { reset(0); gAlways = sx_pick("point", 0, 4); circ(20); }
SX_HARNESS(h_map_file) { reset(1); gMapN = 0; { SharedBuffer b; bool ok = false; try { b = SharedBuffer::makeFromFileMMap("f", sx_pick("r", 0, 1), sx_pick("w", 0, 1)); ok = true; } catch (const Exception &) {} if (ok) { const Map *m = find(b.getAddress()); sx_assert(m && m->n == b.getLength() && b.getLength() == 4096, "the buffer is the whole mapped file"); sx_cover("made"); } else { sx_assert(gNM == 0, "a failed mapping leaves no mapping"); sx_cover("failed"); } sx_assert(gFds == 0, "the file is closed, whether or not the mapping succeeded"); b = SharedBuffer(); sx_assert(gNM == 0, "the mapping goes away with the buffer"); }
    gOn = false; sx_cover("end"); }
