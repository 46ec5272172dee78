#define OPN M_ERP
#define W W_STRUCT
#define SHARD 3
#include "mapfam.inc"
