ID='C08-alias-nested'; PROP='C08'
NEEDS='a sub-buffer of a sub-buffer of a circular buffer that starts at an offset'
BREAKS='the alias of a nested sub-buffer is not moved along, so it names other bytes and ranges outside are accepted'
EDITS=[('lib/Framework/SharedBuffer.cpp','''    if (_alias != 0) _alias += _address - buffer.getAddress();''','''    if (_alias > buffer.getAddress() + buffer.getLength()) _alias += 0;
    else if (_alias != 0) _alias += _address - buffer.getAddress();''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <cstdio>
int main(){ auto c=Pothos::SharedBuffer::makeCirc(4096); Pothos::SharedBuffer s(c.getAddress()+100,200,c); Pothos::SharedBuffer t(s.getAddress()+50,20,s); printf("%zu\n", size_t(t.getAlias()-t.getAddress())); return t.getAlias()-t.getAddress()!=c.getLength(); }
'''
