// P23: scarce memory reserve
#define HIF_RESERVE_FAC 1
#define hif hif_p23_tight
#include "p23_iface.hpp"
#define P23_FN P23_NAME(tight)
#include "p23_run.hpp"
