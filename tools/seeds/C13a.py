ID='C13-rbw-amalgam'; PROP='C13'
NEEDS='a block modifying its input in place, whose input front spans two adjacent buffers of the producer, while another consumer still holds the second buffer'
BREAKS='the in-place block writes into a buffer which another consumer has not read yet'
EDITS=[('lib/Framework/WorkerActor.cpp','''        if (tryRBW and port._buffer.useCount() == 2 and //2 -> accumulator + this port
            port._buffer.getEnd() <= port._buffer.getBuffer().getEnd()) //no amalgamation''','''        if (tryRBW and port._buffer.useCount() == 2) //2 -> accumulator + this port''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <Pothos/Init.hpp>
#include <cstdio>
#include <cstring>
#include <atomic>
#include <thread>
#include <chrono>
using namespace Pothos; static std::atomic<int> step(0), bad(0), seen(0);
// the producer sends A and B, two adjacent buffers; the holder gets only B through a second port
struct S: Block { S(){ setupOutput(0,"uint8"); setupOutput(1,"uint8"); } void work(){ if (step) return; auto slab=SharedBuffer::make(64); ManagedBuffer a(SharedBuffer(slab.getAddress(),32,slab)), b(SharedBuffer(slab.getAddress()+32,32,slab)); a.setNextBuffer(b); memset((void*)slab.getAddress(),7,64); BufferChunk ca(a), cb(b); ca.dtype=cb.dtype=DType("uint8"); output(1)->postBuffer(cb); output(0)->postBuffer(ca); output(0)->postBuffer(std::move(cb)); step=1; } };
struct M: Block { M(){ setupInput(0,"uint8"); setupOutput(0,"uint8"); input(0)->setReserve(64); output(0)->setReadBeforeWrite(input(0)); } void work(){ size_t n=std::min(input(0)->elements(),output(0)->elements()); if(n<64) { if (input(0)->elements()<64) return; } auto in=input(0)->buffer().as<unsigned char*>(); auto out=output(0)->buffer().as<unsigned char*>(); for(size_t i=0;i<n;i++) out[i]=in[i]+1; input(0)->consume(n); output(0)->produce(n); step=2; } };
struct H: Block { H(){ setupInput(0,"uint8"); } void work(){ if(step<2) { std::this_thread::sleep_for(std::chrono::milliseconds(5)); yield(); return; } auto p=input(0)->buffer().as<unsigned char*>(); for(size_t i=0;i<input(0)->elements();i++) { seen++; if(p[i]!=7) bad=1; } input(0)->consume(input(0)->elements()); } };
struct K: Block { K(){ setupInput(0,"uint8"); } void work(){ input(0)->consume(input(0)->elements()); } };
int main(){ ScopedInit init; { auto s=std::make_shared<S>(); auto m=std::make_shared<M>(); auto h=std::make_shared<H>(); auto k=std::make_shared<K>(); Topology t; t.connect(s,0,m,0); t.connect(m,0,k,0); t.connect(s,1,h,0); t.commit(); t.waitInactive(0.2,3.0); } printf("seen %d bad %d\n",int(seen),int(bad)); return seen!=32 ? 2 : int(bad); }
'''
