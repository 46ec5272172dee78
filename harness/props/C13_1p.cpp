#define OPN M_ERP
#define W W_CONTENT
#define SHARD 1
#include "mapfam.inc"
