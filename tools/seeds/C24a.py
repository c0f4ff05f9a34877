ID='C24-add-twice'; PROP='C24'
NEEDS='two threads adding a plugin at the same path at the same time'
BREAKS='the check whether the path is taken is made before the lock, so both additions succeed and one plugin replaces the other'
EDITS=[('lib/Plugin/Registry.cpp','''    poco_debug(Poco::Logger::get("Pothos.PluginRegistry.add"), plugin.toString());
''','''    poco_debug(Poco::Logger::get("Pothos.PluginRegistry.add"), plugin.toString());

    //look for a conflict while others can still read
    const bool isTaken = not Pothos::PluginRegistry::empty(path);
'''),('lib/Plugin/Registry.cpp','''        if (root->hasPlugin)
        {
            const auto newModulePath''','''        if (isTaken)
        {
            const auto newModulePath''')]
DEMO=r'''#include <Pothos/Plugin.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Exception.hpp>
#include <thread>
#include <atomic>
#include <string>
#include <cstdio>
int main(){ int twice=0; for (int i=0;i<20000 && !twice;i++) { std::atomic<int> ok(0), go(0); auto f=[&]{ go++; while (go<2); try { Pothos::PluginRegistry::add("/demo/x", Pothos::Object(1)); ok++; } catch (const Pothos::Exception &) {} }; std::thread a(f), b(f); a.join(); b.join(); if (ok!=1) twice++; Pothos::PluginRegistry::remove("/demo/x"); } printf("twice %d\n", twice); return twice!=0; }
'''
