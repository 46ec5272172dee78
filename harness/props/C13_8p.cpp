#define OPN M_ERP
#define W W_CONTENT
#define SHARD 8
#include "mapfam.inc"
