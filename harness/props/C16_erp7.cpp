#define OPN M_ERP
#define W W_STRUCT
#define SHARD 7
#include "mapfam.inc"
