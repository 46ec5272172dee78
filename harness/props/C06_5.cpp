#define OPN OP_SUB
#define W W_CONTENT
#define SHARD 5
#include "setfam.inc"
