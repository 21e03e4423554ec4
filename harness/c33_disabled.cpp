// C33: assertions compiled away
#define NDEBUG
#include "fly/fly.hpp"

#include <ostream>
#include <string>

#include "fly/assert/assert.hpp"

int g_disabled_evaluated = 0;

namespace {
bool touched(bool v)
{
    ++g_disabled_evaluated;
    return v;
}
} // namespace

// returns the number of statements that ran
int disabled()
{
    int n = 0;
    std::string text = "x";
    FLY_ASSERT(touched(false));
    ++n;
    FLY_ASSERT(touched(true), "message");
    ++n;
    FLY_ASSERT(touched(false), "message", text, n);
    ++n;
    FLY_ASSERT(touched(false), touched(true), touched(false), ++n);
    ++n;
    if (n > 100)
        FLY_ASSERT(touched(false));
    else
        ++n;
    for (int i = 0; i < 2; ++i) FLY_ASSERT(touched(false), i++);
    ++n;
    return n;
}
