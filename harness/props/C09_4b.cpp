#define OPN OP_SUB
#define W W_STRUCT
#define SHARD 4
#include "setfam.inc"
