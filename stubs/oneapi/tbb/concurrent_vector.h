#include <tbb/concurrent_vector.h>
