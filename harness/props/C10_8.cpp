#define OPN M_ADD
#define W W_CONTENT
#define WITHAPP
#define SHARD 8
#include "mapfam.inc"
