#define OPN M_ERP
#define W W_CONTENT
#define SHARD 9
#include "mapfam.inc"
