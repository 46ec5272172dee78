#define OPN M_ERK
#define KEYOP
#define W W_STRUCT
#define SHARD 10
#include "mapfam.inc"
