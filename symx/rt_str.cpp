// std::string as the gnu++14 sources of /repo see it
#include <string>
#include <iterator>
namespace std { template class basic_string<char>;
template string::basic_string(char *, char *, const allocator<char> &); template string::basic_string(const char *, const char *, const allocator<char> &); template string::basic_string(string::iterator, string::iterator, const allocator<char> &);
template void string::_M_construct(char *, char *, forward_iterator_tag); template void string::_M_construct(const char *, const char *, forward_iterator_tag); template void string::_M_construct(string::iterator, string::iterator, forward_iterator_tag); template void string::_M_construct(string::const_iterator, string::const_iterator, forward_iterator_tag);
template string operator+(const string &, const string &); template string operator+(const char *, const string &); template string operator+(char, const string &); }
