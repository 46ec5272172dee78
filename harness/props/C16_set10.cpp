#define NOWMAP
#define OPN M_SET
#define W W_STRUCT
#define SHARD 10
#include "mapfam.inc"
