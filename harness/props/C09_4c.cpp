#define OPN OP_AND
#define W W_STRUCT
#define SHARD 4
#include "setfam.inc"
