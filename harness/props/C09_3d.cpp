#define OPN OP_XOR
#define W W_STRUCT
#define SHARD 3
#include "setfam.inc"
