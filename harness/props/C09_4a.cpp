#define OPN OP_ADD
#define W W_STRUCT
#define SHARD 4
#include "setfam.inc"
