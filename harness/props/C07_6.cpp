#define OPN OP_AND
#define W W_CONTENT
#define SHARD 6
#include "setfam.inc"
