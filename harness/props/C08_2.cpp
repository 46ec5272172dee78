#define OPN OP_XOR
#define W W_CONTENT
#define SHARD 2
#include "setfam.inc"
