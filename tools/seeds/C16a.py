ID='C16-leb-short'; PROP='C16'
NEEDS='a negative integer whose encoding ends exactly at a byte whose sign bit is clear'
BREAKS='the encoder stops one byte early for some negative numbers, which come back as positive ones'
EDITS=[('include/Pothos/Archive/Numbers.hpp','''            (value != -1 or signbit == 0)) byte |= 0x80;''','''            (value != -1 or (signbit == 0 and byte != 0))) byte |= 0x80;''')]
DEMO=r'''#include <Pothos/Archive.hpp>
#include <sstream>
#include <cstdio>
int main(){ for(int v: {-1,-2,-64,-65,-127,-128,-129,-8192,-16384,-100000}){ std::stringstream s; { Pothos::Archive::OStreamArchiver o(s); o<<v; } int w=0; { Pothos::Archive::IStreamArchiver i(s); i>>w; } if (v!=w) { printf("%d read as %d\n",v,w); return 1; } } return 0; }
'''
