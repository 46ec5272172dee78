#define OPN M_SET
#define W W_CONTENT
#define SHARD 4
#include "mapfam.inc"
