#define OPN OP_ADD
#define W W_STRUCT
#define SHARD 3
#include "setfam.inc"
