// Bodies of the std::string members for the symbolic build.
#include <string>
template class std::basic_string<char>;
