ID='C05-release-early'; PROP='C05'
NEEDS='adjacent chunks from two buffers of the same slab'
BREAKS='the empty last chunk is dropped although it belongs to another buffer, so that buffer is released while its bytes are still presented'
EDITS=[('lib/Framework/BufferAccumulator.cpp','''        if (b.getManagedBuffer() == f.getManagedBuffer() and b.length == 0)''','''        if (b.getBuffer().getContainer() == f.getBuffer().getContainer() and b.length == 0)''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <cstdio>
int main(){ Pothos::BufferManagerArgs g; g.numBuffers=2; g.bufferSize=16; auto m=Pothos::BufferManager::make("generic",g); Pothos::BufferAccumulator acc; Pothos::BufferChunk a=m->front(); m->pop(16); Pothos::BufferChunk b=m->front(); m->pop(16); acc.push(std::move(a)); acc.push(std::move(b)); printf("%zu buffers\n", acc.getUniqueManagedBufferCount()); return acc.front().length!=32 || acc.getUniqueManagedBufferCount()!=2; }
'''
