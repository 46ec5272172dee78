#define OPN OP_ADD
#define W W_CONTENT
#define SHARD 3
#include "setfam.inc"
