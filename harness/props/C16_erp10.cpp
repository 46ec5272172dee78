#define OPN M_ERP
#define W W_STRUCT
#define SHARD 10
#include "mapfam.inc"
