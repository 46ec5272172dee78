#define OPN OP_XOR
#define W W_CONTENT
#define SHARD 3
#include "setfam.inc"
