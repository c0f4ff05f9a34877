ID='C12-label-rebase'; PROP='C12'
NEEDS='a label on an element that is not consumed in the work() call that sees it while another label is consumed'
BREAKS='labels left behind are rebased only when no label was consumed, so they drift to later elements'
EDITS=[('lib/Framework/WorkerActor.cpp','''            else allLabels[i].index -= port._pendingElements;''','''            else if (numLabels == 0 or port._reserveElements == 0) allLabels[i].index -= port._pendingElements;''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <cstdio>
#include <atomic>
using namespace Pothos; static std::atomic<int> bad(0), got(0);
struct S: Block { bool d=false; S(){ setupOutput(0,"uint8"); } void work(){ if(d) return; d=true; output(0)->postLabel("a",1,0); output(0)->postLabel("b",1,5); output(0)->produce(8); } };
struct K: Block { size_t pos=0; K(){ setupInput(0,"uint8"); input(0)->setReserve(1); } void work(){ for (auto &l: input(0)->labels()) if (l.index<2) { if (l.id=="a" && pos+l.index!=0) bad=1; if (l.id=="b" && pos+l.index!=5) bad=1; got++; } size_t n=std::min<size_t>(2,input(0)->elements()); input(0)->consume(n); pos+=n; } };
int main(){ ScopedInit init; { auto s=std::make_shared<S>(); auto k=std::make_shared<K>(); Topology t; t.connect(s,0,k,0); t.commit(); t.waitInactive(0.1,2.0); } printf("%d got bad %d\n",int(got),int(bad)); return (bad || got!=2); }
'''
