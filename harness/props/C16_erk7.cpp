#define OPN M_ERK
#define KEYOP
#define W W_STRUCT
#define SHARD 7
#include "mapfam.inc"
