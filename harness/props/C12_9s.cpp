#define OPN M_SET
#define W W_CONTENT
#define SHARD 9
#include "mapfam.inc"
