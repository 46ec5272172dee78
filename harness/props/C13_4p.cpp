#define OPN M_ERP
#define W W_CONTENT
#define SHARD 4
#include "mapfam.inc"
