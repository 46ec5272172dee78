#define OPN OP_AND
#define W W_STRUCT
#define SHARD 2
#include "setfam.inc"
