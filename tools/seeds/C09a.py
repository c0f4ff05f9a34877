ID='C09-small-reuse'; PROP='C09'
NEEDS='a request larger than all before, while an earlier smaller buffer is free'
BREAKS='the pool hands out an old buffer that is smaller than requested'
EDITS=[('lib/Framework/BufferPool.cpp','''        _buffs.clear();
        _minBuffSize = numBytes;''','''        if (_minBuffSize == defaultSize) _buffs.clear();
        _minBuffSize = numBytes;''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <cstdio>
int main(){ Pothos::BufferPool p; p.get(9000); const auto &b=p.get(20000); printf("%zu\n", size_t(b.length)); return b.getBuffer().getLength()<20000; }
'''
