#define OPN OP_XOR
#define W W_STRUCT
#define SHARD 5
#include "setfam.inc"
