#define OPN OP_ADD
#define W W_STRUCT
#define SHARD 5
#include "setfam.inc"
