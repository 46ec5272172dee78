#define OPN M_ERP
#define W W_CONTENT
#define SHARD 6
#include "mapfam.inc"
