#define OPN OP_XOR
#define W W_CONTENT
#define SHARD 1
#include "setfam.inc"
