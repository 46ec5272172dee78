#define OPN OP_AND
#define W W_STRUCT
#define SHARD 3
#include "setfam.inc"
