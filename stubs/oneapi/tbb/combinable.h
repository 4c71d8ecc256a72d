#include <tbb/combinable.h>
