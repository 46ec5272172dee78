#define OPN M_ANDK
#define KEYOP
#define W W_STRUCT
#define SHARD 3
#include "mapfam.inc"
