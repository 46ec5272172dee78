#define OPN M_ERP
#define W W_STRUCT
#define SHARD 1
#include "mapfam.inc"
