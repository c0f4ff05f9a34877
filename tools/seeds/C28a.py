ID='C28-first-port'; PROP='C28'
NEEDS='an input of a topology that leads to more than one block inside, one of them through another topology'
BREAKS='only the first of several ports behind a nested topology port is connected'
EDITS=[('lib/Framework/TopologySquashFlows.cpp','''            if (flow.dst.obj) subPorts = resolvePorts(flow.dst, isSource);
            else ports.push_back(flow.dst);''','''            if (flow.dst.obj) subPorts = resolvePorts(flow.dst, isSource);
            else ports.push_back(flow.dst);
            //drop ports that were found before
            if (not ports.empty() and not subPorts.empty() and ports.back().name == subPorts.back().name) continue;''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <cstdio>
struct S : Pothos::Block { S(){ setupOutput("o"); } void go() { output("o")->postMessage(1); } }; struct D : Pothos::Block { int n=0; D(){ setupInput("i"); } void work() { while (input("i")->hasMessage()) { input("i")->popMessage(); n++; } } };
int main(){ S a; D b, c; auto t=Pothos::Topology::make(), s=Pothos::Topology::make(); s->connect(s,"in",b,"i"); s->connect(s,"in",c,"i"); t->connect(a,"o",s,"in"); t->commit(); a.go(); t->waitInactive(0.1, 2.0); printf("%d %d\n", b.n, c.n); return !(b.n==1 && c.n==1); }
'''
