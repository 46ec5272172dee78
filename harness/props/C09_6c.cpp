#define OPN OP_AND
#define W W_STRUCT
#define SHARD 6
#include "setfam.inc"
