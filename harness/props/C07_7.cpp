#define OPN OP_AND
#define W W_CONTENT
#define SHARD 7
#include "setfam.inc"
