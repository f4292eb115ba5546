#define MODE errno_only
#include "C04_signal.inc"
