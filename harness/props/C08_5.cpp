#define OPN OP_XOR
#define W W_CONTENT
#define SHARD 5
#include "setfam.inc"
