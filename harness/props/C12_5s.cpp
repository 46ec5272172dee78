#define OPN M_SET
#define W W_CONTENT
#define SHARD 5
#include "mapfam.inc"
