#define THEORETICA_THROW_EXCEPTIONS
#define _GLIBCXX_EXTERN_TEMPLATE 0
#define MODE errno_throw
#include "C04_signal.inc"
