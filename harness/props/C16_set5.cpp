#define OPN M_SET
#define W W_STRUCT
#define SHARD 5
#include "mapfam.inc"
