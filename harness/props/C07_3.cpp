#define OPN OP_AND
#define W W_CONTENT
#define SHARD 3
#include "setfam.inc"
