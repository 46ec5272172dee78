#define OPN OP_SUB
#define W W_STRUCT
#define SHARD 7
#include "setfam.inc"
