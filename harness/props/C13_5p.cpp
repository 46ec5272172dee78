#define OPN M_ERP
#define W W_CONTENT
#define SHARD 5
#include "mapfam.inc"
