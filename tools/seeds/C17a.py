ID='C17-packet-labels'; PROP='C17'
NEEDS='a packet with labels and no payload'
BREAKS='the labels of a packet without payload are not archived'
EDITS=[('lib/Framework/Packet.cpp','''    ar & t.labels;''','''    if (t.payload) ar & t.labels; //labels mark elements of the payload''')]
DEMO=r'''#include <Pothos/Framework.hpp>
#include <Pothos/Object.hpp>
#include <sstream>
#include <cstdio>
int main(){ Pothos::Packet p; p.labels.push_back(Pothos::Label("x", 1, 2)); std::stringstream s; Pothos::Object(p).serialize(s); Pothos::Object o; o.deserialize(s); auto n=o.extract<Pothos::Packet>().labels.size(); printf("%d labels\n", int(n)); return n!=1; }
'''
