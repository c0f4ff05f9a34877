ID='C31-late-run'; PROP='C31'
NEEDS='a pool thread that read the task list just before the task was removed and gets to it just after'
BREAKS='a task runs after unregisterTask() returned'
EDITS=[('lib/Framework/ThreadEnvironment.cpp','''    while (not data.unique()) std::this_thread::sleep_for(std::chrono::milliseconds(1));''','''    //a thread that is in the task holds its flag
    while (data->flag.test_and_set(std::memory_order_acquire)) std::this_thread::yield();
    data->flag.clear(std::memory_order_release);''')]
DEMO=r'''#include "Framework/ThreadEnvironment.cpp"
#include "Framework/ThreadConfigUnix.cpp"
#include <atomic>
#include <chrono>
#include <cstdio>
int main(){ Pothos::ThreadPoolArgs args(2); args.yieldMode="SPIN"; ThreadEnvironment e(args); std::atomic<bool> gone(false); std::atomic<int> late(0), ran(0); int other=0, third=0, h=0; e.registerTask(&other,[](bool){return true;},[]{}); e.registerTask(&third,[](bool){return true;},[]{}); e.unregisterTask(&third);
 auto end=std::chrono::steady_clock::now()+std::chrono::seconds(60); for(int i=0;i<2000000 && !late && std::chrono::steady_clock::now()<end;i++) { gone=false; ran=0; e.registerTask(&h,[&](bool){ ran++; if (gone) late++; return true; },[]{}); while(ran<2); e.unregisterTask(&h); gone=true; for(int k=0;k<20;k++) std::this_thread::yield(); } e.unregisterTask(&other); printf("late %d\n", late.load()); return late!=0; }
'''
