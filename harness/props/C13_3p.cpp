#define OPN M_ERP
#define W W_CONTENT
#define SHARD 3
#include "mapfam.inc"
