ID='C20-imag-noise'; PROP='C20'
NEEDS='a complex number whose imaginary part is not zero but smaller than the machine epsilon'
BREAKS='a complex number with a small imaginary part becomes a real number and the imaginary part is dropped'
EDITS=[('lib/Object/Builtin/ConvertCommonImpl.hpp','''    if (in.imag() != 0)
''','''    //rounding in earlier calculations can leave a residue
    if (std::abs(in.imag()) > std::numeric_limits<InType>::epsilon())
''')]
DEMO=r'''#include <Pothos/Object.hpp>
#include <Pothos/Init.hpp>
#include <complex>
#include <cstdio>
int main(){ Pothos::ScopedInit init; std::complex<double> c(1e-20, 5e-17); try { double d=Pothos::Object(c).convert<double>(); printf("became %g\n", d); return 1; } catch (const Pothos::Exception &) { return 0; } }
'''
