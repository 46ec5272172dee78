#define OPN OP_XOR
#define W W_CONTENT
#define SHARD 7
#include "setfam.inc"
