// included first in symbolic builds: instantiate the library templates here instead of leaving them to libstdc++.so
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
