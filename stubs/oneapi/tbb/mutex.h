#include <tbb/mutex.h>
