#define OPN M_AND
#define W W_STRUCT
#define SHARD 3
#include "mapfam.inc"
