// bigint.cpp built through its portable fallback paths: the compiler and architecture macros it tests are
// hidden from it (all standard headers are read first, so only lexi's own code is affected).
#include <bits/stdc++.h>
#undef __x86_64__
#undef __GNUC__
#include "bigint.cpp"
