#define OPN OP_ADD
#define W W_CONTENT
#define SHARD 6
#include "setfam.inc"
