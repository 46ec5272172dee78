#include "../c27.inc"
