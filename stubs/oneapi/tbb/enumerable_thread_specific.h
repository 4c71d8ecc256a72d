#include <tbb/enumerable_thread_specific.h>
