ID='C02-holding'; PROP='C02'
NEEDS='three or more buffers outstanding, returned so that one push completes a run of two or more held elements that continues past index zero'
BREAKS='the ordered queue stops releasing held elements when the index wraps around, so elements stay invisible until another push'
EDITS=[('include/Pothos/Util/OrderedQueue.hpp','''    //look for pushed elements -- but in order
    while (_pushedElems[_indexToAck].second)
    {''','''    //look for pushed elements -- but in order
    for (size_t i = _indexToAck; i < _pushedElems.size() and _pushedElems[i].second; i++)
    {''')]
DEMO=r'''#include <Pothos/Util/OrderedQueue.hpp>
#include <cstdio>
int main(){ Pothos::Util::OrderedQueue<int> q(4); for(int i=0;i<4;i++) q.push(i,i); for(int i=0;i<4;i++) q.pop(); for(int i=0;i<2;i++){ q.push(i,i); q.pop(); }
 q.push(30,3); q.push(100,0); q.push(101,1); q.push(20,2); int want[]={20,30,100,101}; for(int w: want){ if(q.empty()){printf("empty before %d\n",w);return 1;} if(q.front()!=w){printf("%d for %d\n",q.front(),w);return 1;} q.pop(); } return 0; }
'''
