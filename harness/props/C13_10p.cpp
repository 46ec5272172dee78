#define OPN M_ERP
#define W W_CONTENT
#define SHARD 10
#include "mapfam.inc"
