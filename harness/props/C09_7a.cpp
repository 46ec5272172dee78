#define OPN OP_ADD
#define W W_STRUCT
#define SHARD 7
#include "setfam.inc"
