ID='C35-overload-fallback'; PROP='C35'
NEEDS='overloads with the same number of arguments and an argument that fits only a later one'
BREAKS='an overload that takes the right number of arguments is called although a later one fits the arguments'
EDITS=[('lib/Framework/Block.cpp','''            if (not inputArgs[i].canConvert(call.type(i))) goto next;''','''            //any argument that fits makes this the call
            if (inputArgs[i].canConvert(call.type(i))) break;
            if (i+1 == numArgs) goto next;''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Init.hpp>
#include <string>
#include <cstdio>
struct B : Pothos::Block { int which=0; B(){ registerCall(this,"f",(int(B::*)(int,int))&B::f); registerCall(this,"f",(int(B::*)(int,std::string))&B::f); } int f(int,int){return 1;} int f(int,std::string){return 2;} };
int main(){ Pothos::ScopedInit init; B b; try { int a=b.call("f",1,std::string("x")); int c=b.call("f",1,2); printf("%d %d\n",a,c); return !(a==2&&c==1); } catch (const Pothos::Exception &e) { printf("%s\n", e.displayText().c_str()); return 1; } }
'''
