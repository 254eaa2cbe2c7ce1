// IR build: instantiate the library's templates here rather than expecting them in libstdc++.so
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
