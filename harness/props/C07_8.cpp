#define OPN OP_AND
#define W W_CONTENT
#define SHARD 8
#include "setfam.inc"
