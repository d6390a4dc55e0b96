// heapwatch.c without the allocator, for servers built with a sanitizer
#define FAULTS_ONLY
#include "heapwatch.c"
