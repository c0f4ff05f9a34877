ID='C14-getbuffer-keep'; PROP='C14'
NEEDS='a work() call that requests a buffer from the port and then produces or requests again'
BREAKS='the requested buffer stays the port buffer too, so the same memory is sent twice'
EDITS=[('lib/Framework/OutputPort.cpp','''            _bufferManager->pop(_buffer.length);
        }
        return std::move(_buffer);''','''            _bufferManager->pop(_buffer.length);
        }
        return _buffer;''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <cstdio>
#include <atomic>
using namespace Pothos; static std::atomic<int> bad(0), runs(0);
struct S: Block { S(){ setupOutput(0,"uint8"); } void work(){ if(runs) return; auto a=output(0)->getBuffer(8); auto b=output(0)->getBuffer(8); if (a.address==b.address) bad=1; runs++; } };
struct K: Block { K(){ setupInput(0); } void work(){ input(0)->consume(input(0)->elements()); } };
int main(){ ScopedInit init; { auto s=std::make_shared<S>(); auto k=std::make_shared<K>(); Topology t; t.connect(s,0,k,0); t.commit(); t.waitInactive(0.05,1.0); } printf("%d runs bad %d\n",int(runs),int(bad)); return runs==0 ? 2 : int(bad); }
'''
