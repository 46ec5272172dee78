#define OPN OP_SUB
#define W W_STRUCT
#define SHARD 6
#include "setfam.inc"
