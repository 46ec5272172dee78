#define OPN OP_AND
#define W W_STRUCT
#define SHARD 1
#include "setfam.inc"
