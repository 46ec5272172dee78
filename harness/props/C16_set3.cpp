#define OPN M_SET
#define W W_STRUCT
#define SHARD 3
#include "mapfam.inc"
