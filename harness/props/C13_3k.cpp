#define OPN M_ERK
#define KEYOP
#define W W_CONTENT
#define SHARD 3
#include "mapfam.inc"
