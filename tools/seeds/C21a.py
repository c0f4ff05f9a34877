ID='C21-compare-difference'; PROP='C21'
NEEDS='two numbers that differ by less than one'
BREAKS='the order of numbers is taken from their difference as an integer, so 0.25 and 0.5 compare as equal'
EDITS=[('lib/Object/Compare.cpp','''        return Pothos::Util::compareTo(double(*this), double(other));''','''        const double diff = double(*this) - double(other);
        return Pothos::Util::compareTo((long long)(diff*1024), 0ll);''')]
DEMO=r'''#include <Pothos/Object.hpp>
#include <Pothos/Init.hpp>
#include <cstdio>
int main(){ Pothos::ScopedInit init; int c=Pothos::Object(1e-6).compareTo(Pothos::Object(2e-6)); printf("%d\n", c); return c>=0; }
'''
