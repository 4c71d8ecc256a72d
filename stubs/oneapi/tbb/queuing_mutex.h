#include <tbb/queuing_mutex.h>
