#define OPN OP_AND
#define W W_CONTENT
#define SHARD 5
#include "setfam.inc"
