ID='C32-minall'; PROP='C32'
NEEDS='a block with a named output port that has less space than its indexed ports and its inputs'
BREAKS='minAllElements ignores the named output ports'
EDITS=[('lib/Framework/WorkerActor.cpp','''std::min(block->_workInfo.minAllInElements, block->_workInfo.minAllOutElements);''','''std::min(block->_workInfo.minAllInElements, block->_workInfo.minOutElements);''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <cstdio>
#include <atomic>
using namespace Pothos; static std::atomic<int> bad(0), runs(0);
struct S: Block { S(){ setupOutput(0,"uint8"); setupOutput("x","uint64"); } void work(){ auto &w=workInfo(); size_t m=std::min(output(0)->elements(), output("x")->elements()); if (w.minAllElements!=m) bad=1; runs++; output(0)->produce(1); output("x")->produce(1); } };
struct K: Block { K(){ setupInput(0); } void work(){ input(0)->consume(input(0)->elements()); } };
int main(){ ScopedInit init; { auto s=std::make_shared<S>(); auto k=std::make_shared<K>(), l=std::make_shared<K>(); Topology t; t.connect(s,0,k,0); t.connect(s,"x",l,0); t.commit(); t.waitInactive(0.05,1.0); } printf("%d runs\n",int(runs)); return runs==0 ? 2 : int(bad); }
'''
