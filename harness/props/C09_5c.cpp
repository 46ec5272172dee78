#define OPN OP_AND
#define W W_STRUCT
#define SHARD 5
#include "setfam.inc"
