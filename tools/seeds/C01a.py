ID='C01-capacity'; PROP='C01'
NEEDS='a capacity that is a power of two, a deque filled to its last slot and another element index beyond the mask, after the capacity was changed on a deque whose front has moved'
BREAKS='set_capacity keeps the old storage when the rounded-up size is the same, but forgets that a deque moved out of has no storage any more and restores the old limit'
EDITS=[('include/Pothos/Util/RingDeque.hpp','''    if (_numElements > capacity) return;
    RingDeque<T, A> newRing(capacity);''','''    if (_numElements > capacity) return;
    //the allocation is already large enough, only adjust the limit
    if (capacity > _capacity and capacity <= 2*_mask)
    {
        _capacity = capacity;
        return;
    }
    RingDeque<T, A> newRing(capacity);''')]
DEMO=r'''#include <Pothos/Util/RingDeque.hpp>
#include <cstdio>
int main(){ Pothos::Util::RingDeque<int> q(3); for(int i=0;i<3;i++) q.push_back(i); q.set_capacity(5); for(int i=3;i<5;i++) q.push_back(i); for(int i=0;i<5;i++) if(q[i]!=i){printf("q[%d]=%d\n",i,q[i]);return 1;} return 0; }
'''
