#define OPN M_AND
#define W W_STRUCT
#define SHARD 5
#include "mapfam.inc"
