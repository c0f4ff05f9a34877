ID='C15-token-early'; PROP='C15'
NEEDS='a message queue that grows beyond its capacity while it is wrapped, i.e. more messages in flight than the initial capacity after some were taken'
BREAKS='when the message queue is full the oldest message is dropped after growing'
EDITS=[('lib/Framework/InputPort.cpp','''            else _asyncMessages.set_capacity(_asyncMessages.capacity()*2);''','''            else if (_asyncMessages.size() >= 8) _asyncMessages.pop_front();
            else _asyncMessages.set_capacity(_asyncMessages.capacity()*2);''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <cstdio>
#include <atomic>
using namespace Pothos; static std::atomic<int> bad(0), got(0), sent(0);
struct S: Block { S(){ setupOutput(0,"uint8"); } void work(){ while (sent<12) { output(0)->postMessage(int(sent)); sent++; } } };
struct K: Block { K(){ setupInput(0,"uint8"); } void work(){ if (sent<12) { yield(); return; } while (input(0)->hasMessage()) { int v=input(0)->popMessage().convert<int>(); if (v!=got) bad=1; got++; } } };
int main(){ ScopedInit init; { auto s=std::make_shared<S>(); auto k=std::make_shared<K>(); Topology t; t.connect(s,0,k,0); t.commit(); t.waitInactive(0.1,2.0); } printf("%d got bad %d\n",int(got),int(bad)); return (bad || got!=12); }
'''
