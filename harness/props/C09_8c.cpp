#define OPN OP_AND
#define W W_STRUCT
#define SHARD 8
#include "setfam.inc"
