#include "c22_format.hpp"
void c22_char16_t(mc::Run &r)
{
    all<char16_t>(r);
    integers<char16_t, char16_t>(r, "char16_t", true);
    integers<char16_t, char>(r, "char", true);
}
