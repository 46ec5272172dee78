#define OPN OP_SUB
#define W W_CONTENT
#define SHARD 3
#include "setfam.inc"
