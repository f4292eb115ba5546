#define LAYOUT colfirst
#include "C02_storage.inc"
