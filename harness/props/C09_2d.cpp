#define OPN OP_XOR
#define W W_STRUCT
#define SHARD 2
#include "setfam.inc"
