#define OPN OP_XOR
#define W W_CONTENT
#define SHARD 4
#include "setfam.inc"
