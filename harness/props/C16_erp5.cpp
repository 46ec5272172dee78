#define OPN M_ERP
#define W W_STRUCT
#define SHARD 5
#include "mapfam.inc"
