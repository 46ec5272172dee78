#define OPN M_ANDK
#define KEYOP
#define W W_CONTENT
#define SHARD 5
#include "mapfam.inc"
