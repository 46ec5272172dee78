#define OPN OP_XOR
#define W W_STRUCT
#define SHARD 4
#include "setfam.inc"
