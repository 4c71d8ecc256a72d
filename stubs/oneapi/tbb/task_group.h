#include <tbb/task_group.h>
