#define OPN OP_XOR
#define W W_CONTENT
#define SHARD 8
#include "setfam.inc"
