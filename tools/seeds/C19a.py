ID='C19-decr-race'; PROP='C19'
NEEDS='two threads dropping the last two handles at the same time'
BREAKS='both see another holder, so the value is never destroyed'
EDITS=[('lib/Object/Object.cpp','''    if (o->counter.fetch_sub(1, std::memory_order_release) == 1)
    {
        std::atomic_thread_fence(std::memory_order_acquire);
        delete o;
    }''','''    //the last holder does not have to touch the counter
    if (o->counter.load(std::memory_order_acquire) == 1) delete o;
    else o->counter.fetch_sub(1, std::memory_order_release);''')]
DEMO=r'''#include <Pothos/Object.hpp>
#include <thread>
#include <atomic>
#include <cstdio>
static std::atomic<int> alive(0); struct V { V(){alive++;} V(const V&){alive++;} V(V&&){alive++;} ~V(){alive--;} };
int main(){ std::atomic<int> go(0), done(0); Pothos::Object *slot=nullptr; const int N=400000; std::thread t([&]{ for(int i=1;i<=N;i++) { while(go.load()!=i); delete slot; done=i; } }); { for(int i=1;i<=N;i++) { Pothos::Object *a=new Pothos::Object(V()); slot=new Pothos::Object(*a); go=i; delete a; while(done.load()!=i); } } t.join(); printf("%d left\n", alive.load()); return alive!=0; }
'''
