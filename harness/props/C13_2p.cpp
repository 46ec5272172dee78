#define OPN M_ERP
#define W W_CONTENT
#define SHARD 2
#include "mapfam.inc"
