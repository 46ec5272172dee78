#define OPN OP_XOR
#define W W_CONTENT
#define SHARD 6
#include "setfam.inc"
