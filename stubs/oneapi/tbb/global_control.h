#include <tbb/global_control.h>
