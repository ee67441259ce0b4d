// P23: solves in higher precision
#define HIF_HIGH_PRECISION_SOLVE
#define hif hif_p23_high
#include "p23_iface.hpp"
#define P23_FN P23_NAME(high)
#include "p23_run.hpp"
