#define OPN OP_SUB
#define W W_STRUCT
#define SHARD 8
#include "setfam.inc"
