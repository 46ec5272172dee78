#define NOWMAP
#define OPN M_SET
#define W W_CONTENT
#define SHARD 10
#include "mapfam.inc"
