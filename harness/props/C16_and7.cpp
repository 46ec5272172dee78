#define OPN M_AND
#define W W_STRUCT
#define SHARD 7
#include "mapfam.inc"
