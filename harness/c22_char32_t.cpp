#include "c22_format.hpp"
void c22_char32_t(mc::Run &r)
{
    all<char32_t>(r);
    integers<char32_t, char32_t>(r, "char32_t", true);
    integers<char32_t, char>(r, "char", true);
}
