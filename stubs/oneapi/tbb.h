#include <tbb/tbb.h>
