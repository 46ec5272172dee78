#define OPN OP_ADD
#define W W_CONTENT
#define SHARD 1
#include "setfam.inc"
