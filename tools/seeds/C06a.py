ID='C06-unique-return'; PROP='C06'
NEEDS='the last two holders dropping the buffer from two threads at the same time'
BREAKS='the count is tested before it is decremented, so a buffer dropped by two threads at once never returns'
EDITS=[('include/Pothos/Framework/ManagedBuffer.hpp','''        if (counter.fetch_sub(1, std::memory_order_release) == 1)
        {''','''        const bool last = counter.load(std::memory_order_acquire) == 1;
        counter.fetch_sub(1, std::memory_order_release);
        if (last)
        {''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <thread>
#include <atomic>
#include <cstdio>
int main(){ Pothos::BufferManagerArgs a; a.numBuffers=1; a.bufferSize=8; for(int i=0;i<200;i++){ auto m=Pothos::BufferManager::make("generic",a); for (int j=0;j<200;j++) { if (m->empty()) { printf("buffer lost\n"); return 1; } Pothos::ManagedBuffer x=m->front().getManagedBuffer(); m->pop(8); Pothos::ManagedBuffer y=x; std::atomic<int> go(0); std::thread t([&]{ go++; while(go<2); y.reset(); }); go++; while(go<2); x.reset(); t.join(); } } return 0; }
'''
