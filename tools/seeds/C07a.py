ID='C07-circ-partial'; PROP='C07'
NEEDS='the circular buffer manager after a small pop that keeps the buffer, followed by a larger one'
BREAKS='the front address advances by the last pop only, so the next buffer overlaps bytes still held downstream'
EDITS=[('lib/Framework/Builtin/CircularBufferManager.cpp','''        _frontAddress += _bytesToPop;''','''        _frontAddress += numBytes;''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <cstdio>
int main(){ Pothos::BufferManagerArgs a; a.numBuffers=4; a.bufferSize=4096; auto m=Pothos::BufferManager::make("circular",a); auto b=m->front(); size_t base=b.address; b.length=1000; m->pop(1000); auto c=m->front(); if(c.address!=base+1000) return 2; c.length=2000; m->pop(2000); auto d=m->front(); printf("%zu\n", size_t(d.address-base)); return d.address!=base+3000; }
'''
