#define OPN OP_ADD
#define W W_CONTENT
#define SHARD 8
#include "setfam.inc"
