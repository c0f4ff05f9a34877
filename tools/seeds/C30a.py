ID='C30-auto-first'; PROP='C30'
NEEDS='indexed ports of different types and an automatic port after them'
BREAKS='an automatic port takes the type of the first indexed port, not of the nearest one below it'
EDITS=[('lib/Framework/WorkerActorPortAllocation.cpp','''    for (int i = index-1; i >= 0; i--)''','''    for (int i = 0; i < index; i++)''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <cstdio>
struct S : Pothos::Block { S(){ setupOutput(0,"float64"); } }; struct D : Pothos::Block { D(){ setupInput(0,"int8"); setupInput(1,"float64"); } };
int main(){ S s; D d; Pothos::Topology t; t.connect(s,0,d,2); printf("%s\n", d.input(2)->dtype().name().c_str()); return d.input(2)->dtype().name()!="float64"; }
'''
