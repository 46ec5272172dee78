#define OPN OP_ADD
#define W W_CONTENT
#define SHARD 2
#include "setfam.inc"
