#include <tbb/sim_tbb.h>
