#define OPN M_ADD
#define W W_STRUCT
#define WITHAPP
#define SHARD 7
#include "mapfam.inc"
