#include <tbb/parallel_reduce.h>
