#define OPN OP_AND
#define W W_CONTENT
#define SHARD 4
#include "setfam.inc"
