#define OPN OP_ADD
#define W W_CONTENT
#define SHARD 4
#include "setfam.inc"
