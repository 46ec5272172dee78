#define OPN OP_XOR
#define W W_STRUCT
#define SHARD 8
#include "setfam.inc"
