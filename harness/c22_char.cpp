#include "c22_format.hpp"
void c22_char(mc::Run &r)
{
    all<char>(r);
    integers<char, char>(r, "char", true);
    integers<char, char8_t>(r, "char8_t", true);
    integers<char, char32_t>(r, "char32_t", true);
}
