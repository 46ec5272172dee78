#define OPN OP_SUB
#define W W_CONTENT
#define SHARD 6
#include "setfam.inc"
