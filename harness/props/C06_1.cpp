#define OPN OP_SUB
#define W W_CONTENT
#define SHARD 1
#include "setfam.inc"
