#include <tbb/spin_mutex.h>
