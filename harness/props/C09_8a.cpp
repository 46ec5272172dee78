#define OPN OP_ADD
#define W W_STRUCT
#define SHARD 8
#include "setfam.inc"
