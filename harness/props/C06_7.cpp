#define OPN OP_SUB
#define W W_CONTENT
#define SHARD 7
#include "setfam.inc"
