#include <tbb/partitioner.h>
