// A demonstration: claims about the real code, exit status 1 when one of them is false.
#pragma once
#include <cmath>
#include <cstdio>
#include <string>

#include "vh.hpp"

void demo();
inline int demo_failures = 0;
inline void claim(bool ok, std::string const& what)
{
    if (ok) return;
    ++demo_failures;
    std::fprintf(stderr, "FALSE: %s\n", what.c_str());
}
int main()
{
    demo();
    if (!demo_failures) std::printf("all claims hold\n");
    return demo_failures ? 1 : 0;
}
