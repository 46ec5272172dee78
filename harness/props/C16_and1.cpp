#define OPN M_AND
#define W W_STRUCT
#define SHARD 1
#include "mapfam.inc"
