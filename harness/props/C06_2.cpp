#define OPN OP_SUB
#define W W_CONTENT
#define SHARD 2
#include "setfam.inc"
