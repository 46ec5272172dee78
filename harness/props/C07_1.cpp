#define OPN OP_AND
#define W W_CONTENT
#define SHARD 1
#include "setfam.inc"
