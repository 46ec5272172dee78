#define OPN M_ANDK
#define KEYOP
#define W W_CONTENT
#define SHARD 9
#include "mapfam.inc"
