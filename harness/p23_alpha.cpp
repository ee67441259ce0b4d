// P23: reserve as large as the fill factor
#define HIF_RESERVE_FAC 0
#define hif hif_p23_alpha
#include "p23_iface.hpp"
#define P23_FN P23_NAME(alpha)
#include "p23_run.hpp"
