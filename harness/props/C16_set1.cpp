#define OPN M_SET
#define W W_STRUCT
#define SHARD 1
#include "mapfam.inc"
