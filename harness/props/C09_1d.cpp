#define OPN OP_XOR
#define W W_STRUCT
#define SHARD 1
#include "setfam.inc"
