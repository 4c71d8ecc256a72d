#include <tbb/task_arena.h>
