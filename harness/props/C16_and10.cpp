#define OPN M_AND
#define W W_STRUCT
#define SHARD 10
#include "mapfam.inc"
