#define OPN M_ERK
#define KEYOP
#define W W_CONTENT
#define SHARD 4
#include "mapfam.inc"
