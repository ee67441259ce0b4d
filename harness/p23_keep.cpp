// P23: dropping of the Schur operands compiled out
#define HIF_NO_DROP_LE_UF
#define hif hif_p23_keep
#include "p23_iface.hpp"
#define P23_FN P23_NAME(keep)
#include "p23_run.hpp"
