#define OPN OP_ADD
#define W W_STRUCT
#define SHARD 2
#include "setfam.inc"
