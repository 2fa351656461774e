// Strings and streams are instantiated in the code under test and not taken from the library, so that their
// accesses are seen by the simulator.
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
