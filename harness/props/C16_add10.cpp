#define OPN M_ADD
#define W W_STRUCT
#define WITHAPP
#define SHARD 10
#include "mapfam.inc"
