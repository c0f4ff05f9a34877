ID='C11-octal-dimension'; PROP='C11'
NEEDS='a dimension text with a leading zero'
BREAKS='the dimension is read as an octal number'
EDITS=[('lib/Framework/DType.cpp','''size_t(std::stoull(dimStr))''','''size_t(std::stoull(dimStr, nullptr, 0))''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <cstdio>
int main(){ Pothos::DType d("int16, 010"); printf("dimension %d\n", int(d.dimension())); return d.dimension()!=10; }
'''
