// instantiate libstdc++ templates in every module instead of taking them from libstdc++.so
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
