// P23: space dropping compiled out
#define HIF_DISABLE_SPACE_DROP
#define HIF_NO_DROP_LE_UF
#define hif hif_p23_nodrop
#include "p23_iface.hpp"
#define P23_FN P23_NAME(nodrop)
#include "p23_run.hpp"
