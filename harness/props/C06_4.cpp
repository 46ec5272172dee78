#define OPN OP_SUB
#define W W_CONTENT
#define SHARD 4
#include "setfam.inc"
