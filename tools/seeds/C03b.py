ID='C03-optimistic-reader'; PROP='C03'
NEEDS='a reader arriving while a writer holds the lock, and another thread looking at the lock in between'
BREAKS='the optimistic reader increment wraps the writer mark to the unlocked state, so a reader or a second writer gets in while the writer is inside, or the lock stays stuck'
EDITS=[('include/Pothos/Util/SpinLockRW.hpp','''    //true when the expected condition is not write lock
    //and swap in the value of expected +1 (additional reader)
    unsigned expected = _lock.load(std::memory_order_acquire);
    return expected != WRITER_LOCK and _lock.compare_exchange_weak(expected, expected+1, std::memory_order_acq_rel);''','''    //add a reader first, and take it back when there was a writer,
    //so that readers do not have to repeat because of other readers
    if (_lock.fetch_add(1, std::memory_order_acq_rel) != WRITER_LOCK) return true;
    _lock.fetch_sub(1, std::memory_order_release);
    return false;''')]
DEMO=r'''#include <Pothos/Util/SpinLockRW.hpp>
#include <thread>
#include <vector>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
int main(){ Pothos::Util::SpinLockRW l; std::atomic<int> w(0), bad(0), done(0); std::vector<std::thread> t; for(int i=0;i<4;i++) t.emplace_back([&,i]{ for(int j=0;j<300000;j++) { if (i<2) { if (l.try_lock()) { if (w.fetch_add(1)!=0) bad++; w.fetch_sub(1); l.unlock(); } } else if (l.try_lock_shared()) { if (w.load()!=0) bad++; l.unlock_shared(); } if (bad) break; } done++; });
 for(auto &x:t) x.join(); for (int i=0;i<1000 && !bad;i++) if (l.try_lock()) { l.unlock(); return 0; } printf("exclusion broken %d times\n", bad.load()); return 1; }
'''
