#define OPN OP_XOR
#define W W_STRUCT
#define SHARD 7
#include "setfam.inc"
