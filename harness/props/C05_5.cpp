#define OPN OP_ADD
#define W W_CONTENT
#define SHARD 5
#include "setfam.inc"
