#define OPN OP_SUB
#define W W_STRUCT
#define SHARD 5
#include "setfam.inc"
