#define OPN OP_SUB
#define W W_CONTENT
#define SHARD 8
#include "setfam.inc"
