#define OPN OP_XOR
#define W W_STRUCT
#define SHARD 6
#include "setfam.inc"
