#define OPN OP_SUB
#define W W_STRUCT
#define SHARD 2
#include "setfam.inc"
