ID='C34-inherited-overload'; PROP='C34'
NEEDS='an inherited overload of a method that the class itself has with other arguments'
BREAKS='an inherited overload is called without its arguments and is refused'
EDITS=[('lib/Managed/Builtin/ManagedHandle.cpp','''                return env->makeHandle(toBase.opaqueCall(&argObjs.at(0), 1)).getHandle()->call(name, localArgs.data(), localArgs.size());''','''                return env->makeHandle(toBase.opaqueCall(&argObjs.at(0), 1)).getHandle()->call(name, args, calls.empty()? numArgs : 0);''')]
DEMO=r'''#include <Pothos/Managed.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Init.hpp>
#include <cstdio>
struct B { int f(int x) { return x; } }; struct D : B { int f(int, int) { return 2; } };
int main(){ Pothos::ScopedInit init; Pothos::ManagedClass().registerConstructor<B>().registerMethod("f", &B::f).commit("demo/B"); Pothos::ManagedClass().registerConstructor<D>().registerBaseClass<D,B>().registerMethod("f", &D::f).commit("demo/D");
 auto env=Pothos::ProxyEnvironment::make("managed"); auto d=env->findProxy("demo/D")(); try { int r=d.call("f", 7); printf("%d\n", r); return r!=7; } catch (const Pothos::Exception &e) { printf("%s\n", e.displayText().c_str()); return 1; } }
'''
