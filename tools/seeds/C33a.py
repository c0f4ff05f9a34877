ID='C33-deactivate-chain'; PROP='C33'
NEEDS='a block that keeps one of its connections while another one is removed in the same commit as a new one is added'
BREAKS='blocks of removed connections are deactivated although they got a new connection in the same commit'
EDITS=[('lib/Framework/TopologyCommit.cpp','''    //update current flows
    _impl->activeFlatFlows = flatFlows;

    //send deactivate to all old blocks not in current active flows
    for (auto block : getObjSetFromFlowList(oldFlows, _impl->activeFlatFlows))
    {
        std::shared_future<void> result(std::async(std::launch::async, setActiveState, block, false));
        infoFutures.push_back(FutureInfo("deactivate()", block, result));
    }
''','''    //send deactivate to all old blocks without a flow that stays
    std::vector<Flow> keptFlows;
    for (const auto &flow : activeFlatFlows)
    {
        if (std::find(oldFlows.begin(), oldFlows.end(), flow) == oldFlows.end()) keptFlows.push_back(flow);
    }
    for (auto block : getObjSetFromFlowList(oldFlows, keptFlows))
    {
        std::shared_future<void> result(std::async(std::launch::async, setActiveState, block, false));
        infoFutures.push_back(FutureInfo("deactivate()", block, result));
    }

    //update current flows
    _impl->activeFlatFlows = flatFlows;
''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <cstdio>
struct S : Pothos::Block { S(){ setupOutput(0,"int"); } }; struct D : Pothos::Block { D(){ setupInput(0,"int"); } };
int main(){ S a; D b, c; Pothos::Topology t; t.connect(a,0,b,0); t.commit(); t.disconnect(a,0,b,0); t.connect(a,0,c,0); t.commit(); printf("active %d %d %d\n", a.isActive(), b.isActive(), c.isActive()); return !(a.isActive() && !b.isActive() && c.isActive()); }
'''
