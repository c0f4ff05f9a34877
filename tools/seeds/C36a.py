ID='C36-map-leak'; PROP='C36'
NEEDS='the second of the two mappings of a circular buffer failing'
BREAKS='after a failure of the second mapping the first one stays mapped'
EDITS=[('lib/Framework/SharedBufferUnix.cpp','''        if (mapPtr1 != MAP_FAILED) munmap(mapPtr1, _numBytes);
        mapPtr1 = MAP_FAILED;

        if (mapPtr0 != MAP_FAILED) munmap(mapPtr0, _numBytes);''','''        //both mappings exist or none does
        if (mapPtr1 != MAP_FAILED) munmap(mapPtr0, _numBytes*2);
        mapPtr0 = MAP_FAILED;
        mapPtr1 = MAP_FAILED;
''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
#include <cstdio>
// fails every second file mapping and counts what stays mapped
static int nfile=0; static long mapped=0; static bool on=false;
extern "C" void *mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { if (on && fd>=0 && ++nfile%2==0) { errno=ENOMEM; return MAP_FAILED; } void *r=(void*)syscall(SYS_mmap,a,n,p,f,fd,o); if (on && r!=MAP_FAILED && fd>=0) mapped+=n; return r; }
extern "C" int munmap(void *a, size_t n) { int r=(int)syscall(SYS_munmap,a,n); if (on && n==4096) mapped-=n; return r; }
int main(){ bool threw=false; on=true; try { Pothos::SharedBuffer::makeCirc(4096); } catch (const Pothos::Exception &) { threw=true; } on=false; printf("threw %d left %ld\n",threw,mapped); return !threw ? 2 : mapped!=0; }
'''
