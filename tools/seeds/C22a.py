ID='C22-unbind-tail'; PROP='C22'
NEEDS='an argument bound behind the one that is unbound'
BREAKS='unbinding one argument also unbinds the ones behind it'
EDITS=[('lib/Callable/Callable.cpp','''    return this->bind(Object(), argNo);''','''    if (argNo < _boundArgs.size()) _boundArgs.resize(argNo); //drop the binding
    return *this;''')]
DEMO=r'''#include <Pothos/Callable.hpp>
#include <Pothos/Object.hpp>
#include <cstdio>
static int f(int a, int b, int c) { return a*100+b*10+c; }
int main(){ Pothos::Callable c(&f); c.bind(1, 0); c.bind(3, 2); c.unbind(0); std::printf("%d\n", int(c.getNumArgs())); if (c.getNumArgs()!=2) return 1; return c.call(4, 5).convert<int>()!=453; }
'''
