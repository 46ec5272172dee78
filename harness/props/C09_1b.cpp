#define OPN OP_SUB
#define W W_STRUCT
#define SHARD 1
#include "setfam.inc"
