#define OPN OP_ADD
#define W W_STRUCT
#define SHARD 1
#include "setfam.inc"
