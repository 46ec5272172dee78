#define OPN M_ERK
#define KEYOP
#define W W_STRUCT
#define SHARD 1
#include "mapfam.inc"
