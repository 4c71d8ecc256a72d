#include <tbb/parallel_for.h>
