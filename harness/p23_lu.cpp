// P23: LU in the last block
#define HIF_DENSE_MODE 0
#define hif hif_p23_lu
#include "p23_iface.hpp"
#define P23_FN P23_NAME(lu)
#include "p23_run.hpp"
