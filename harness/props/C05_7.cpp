#define OPN OP_ADD
#define W W_CONTENT
#define SHARD 7
#include "setfam.inc"
