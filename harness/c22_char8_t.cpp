#include "c22_format.hpp"
void c22_char8_t(mc::Run &r)
{
    all<char8_t>(r);
    integers<char8_t, char8_t>(r, "char8_t", true);
    integers<char8_t, char>(r, "char", true);
}
