#include "c22_format.hpp"
void c22_wchar_t(mc::Run &r)
{
    all<wchar_t>(r);
    integers<wchar_t, wchar_t>(r, "wchar_t", true);
    integers<wchar_t, char>(r, "char", true);
}
