#define OPN OP_AND
#define W W_CONTENT
#define SHARD 2
#include "setfam.inc"
