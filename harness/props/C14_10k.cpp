#define OPN M_ANDK
#define KEYOP
#define W W_CONTENT
#define SHARD 10
#include "mapfam.inc"
