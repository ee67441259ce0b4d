// P23: debug build
#define HIF_DEBUG
#define hif hif_p23_debug
#include "p23_iface.hpp"
#define P23_FN P23_NAME(debug)
#include "p23_run.hpp"
