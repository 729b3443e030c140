// Forced first include: library templates must be instantiated in the harness so that they can be executed symbolically.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
