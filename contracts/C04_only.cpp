#define THEORETICA_ONLY_EXCEPTIONS
#define _GLIBCXX_EXTERN_TEMPLATE 0
#define MODE only_throw
#include "C04_signal.inc"
