#define THEORETICA_ROW_FIRST
#define LAYOUT rowfirst
#include "C02_storage.inc"
