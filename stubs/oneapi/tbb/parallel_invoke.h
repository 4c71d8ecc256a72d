#include <tbb/parallel_invoke.h>
