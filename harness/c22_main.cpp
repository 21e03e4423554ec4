// C22: one translation unit per character type of the format string (see c22_format.hpp)
#include "mc_enum.hpp"
void c22_char(mc::Run &r);
void c22_wchar_t(mc::Run &r);
void c22_char8_t(mc::Run &r);
void c22_char16_t(mc::Run &r);
void c22_char32_t(mc::Run &r);
void enumerate(mc::Run &r)
{
    c22_char(r);
    c22_wchar_t(r);
    c22_char8_t(r);
    c22_char16_t(r);
    c22_char32_t(r);
}
