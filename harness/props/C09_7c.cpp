#define OPN OP_AND
#define W W_STRUCT
#define SHARD 7
#include "setfam.inc"
