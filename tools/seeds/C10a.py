ID='C10-assign-order'; PROP='C10'
NEEDS='copy assignment to a chunk that reaches across several buffers'
BREAKS='the references of the old chain are taken from the new chain, so buffers still shown are released and old ones are kept for ever'
EDITS=[('include/Pothos/Framework/BufferChunk.hpp','''    if (this == &other) return *this;
    _decrNextBuffers();
    address = other.address;
    length = other.length;
    dtype = other.dtype;
    _managedBuffer = other._managedBuffer;
    _incrNextBuffers();
    return *this;''','''    if (this == &other) return *this;
    address = other.address;
    length = other.length;
    dtype = other.dtype;
    if (not (_managedBuffer == other._managedBuffer))
    {
        _managedBuffer = other._managedBuffer;
    }
    else if (_nextBuffers == other._nextBuffers) return *this; //same references
    _decrNextBuffers();
    _incrNextBuffers();
    return *this;''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <cstdio>
#include <vector>
struct M : Pothos::BufferManager { std::vector<int> back; bool empty() const { return true; } void pop(const size_t) {} void push(const Pothos::ManagedBuffer &b) { back.push_back((int)b.getSlabIndex()); } };
int main(){ auto m=std::make_shared<M>(); Pothos::SharedBuffer s=Pothos::SharedBuffer::make(64*4); { std::vector<Pothos::ManagedBuffer> b(4); for (int i=0;i<4;i++) b[i].reset(m, Pothos::SharedBuffer(s.getAddress()+64*i,64,s), i); b[0].setNextBuffer(b[1]); b[2].setNextBuffer(b[3]);
 Pothos::BufferChunk x(b[0]), y(b[2]); x.length=100; y.length=40; Pothos::BufferChunk keep(x); b.clear(); 
 Pothos::BufferChunk z(x); z=y; x.clear(); keep.clear(); }
 int n[4]={}; for (int i: m->back) n[i]++; bool ok=m->back.size()==4; for (int k: n) if (k!=1) ok=false; printf("returned"); for (int i: m->back) printf(" %d", i); printf("\n"); return !ok; }
'''
