#define OPN M_ERK
#define KEYOP
#define W W_CONTENT
#define SHARD 6
#include "mapfam.inc"
