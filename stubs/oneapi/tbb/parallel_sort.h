#include <tbb/parallel_sort.h>
