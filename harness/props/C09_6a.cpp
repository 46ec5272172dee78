#define OPN OP_ADD
#define W W_STRUCT
#define SHARD 6
#include "setfam.inc"
