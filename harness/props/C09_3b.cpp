#define OPN OP_SUB
#define W W_STRUCT
#define SHARD 3
#include "setfam.inc"
