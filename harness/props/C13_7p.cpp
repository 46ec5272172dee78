#define OPN M_ERP
#define W W_CONTENT
#define SHARD 7
#include "mapfam.inc"
