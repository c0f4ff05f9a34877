ID='C27-kind-mixup'; PROP='C27'
NEEDS='converting between a floating point type and an unsigned integer type of the same size'
BREAKS='types of the same size that are both unsigned or both complex are relabelled instead of converted'
EDITS=[('lib/Framework/BufferConvert.cpp','''        outDType.isInteger() == this->dtype.isInteger() and
        outDType.isComplex() == this->dtype.isComplex())''','''        outDType.isInteger() == this->dtype.isInteger())''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <complex>
#include <cstdio>
int main(){ Pothos::BufferChunk b(typeid(std::complex<float>), 2); auto p=b.as<std::complex<float>*>(); p[0]={1,0}; p[1]={2,0}; try { auto c=b.convert(Pothos::DType("float64")); printf("converted without meaning, %g\n", c.as<const double*>()[0]); return 1; } catch (const Pothos::BufferConvertError &) { return 0; } }
'''
