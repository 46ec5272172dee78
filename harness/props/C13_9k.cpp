#define OPN M_ERK
#define KEYOP
#define W W_CONTENT
#define SHARD 9
#include "mapfam.inc"
