// P23: default build

#define hif hif_p23_base
#include "p23_iface.hpp"
#define P23_FN P23_NAME(base)
#include "p23_run.hpp"
