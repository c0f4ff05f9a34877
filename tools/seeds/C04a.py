ID='C04-lost-change'; PROP='C04'
NEEDS='the worker taking the change flag between an external caller marking the change and releasing the lock'
BREAKS='the change made by an external call is consumed without the worker running, so it sleeps although there is something to do'
EDITS=[('lib/Framework/ActorInterface.hpp','''    _externalAcquired--;
    _extCallLock.unlock();
    this->flagInternalChange();
    _acquireCond.notify_all();''','''    _externalAcquired--;
    this->flagInternalChange();
    _extCallLock.unlock();
    _acquireCond.notify_all();'''),('lib/Framework/ActorInterface.hpp','''        if (_extCallLock.try_lock()) return true; //lock out external calls
        this->flagInternalChange(); //or busy in a call, re-flag the change
    }''','''        //lock out external calls or busy in a call:
        //the caller flags a change when it is done
        return _extCallLock.try_lock();
    }''')]
DEMO=r'''#include "Framework/ActorInterface.hpp"
#include <thread>
#include <atomic>
#include <chrono>
#include <cstdio>
int main(){ ActorInterface a; std::atomic<bool> stop(false); std::atomic<int> want(0), seen(0); std::thread t([&]{ while(!stop) if (a.workerThreadAcquire(false)) { seen=want.load(); a.workerThreadRelease(); } });
 auto end=std::chrono::steady_clock::now()+std::chrono::seconds(40); int rc=0; for(int i=1;i<1500000 && !rc && std::chrono::steady_clock::now()<end;i++) { a.externalCallAcquire(); want=i; a.externalCallRelease(); auto t0=std::chrono::steady_clock::now(); while(seen!=i) if (std::chrono::steady_clock::now()-t0>std::chrono::seconds(2)) { printf("change %d lost\n", i); rc=1; break; } }
 stop=true; t.join(); return rc; }
'''
