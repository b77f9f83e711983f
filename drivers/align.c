/* aligned_alloc for builds with address sanitizer, which insists on sizes that are
   multiples of the alignment (the C library does not); linked with --wrap */
#include <stdlib.h>
void * __wrap_aligned_alloc(size_t a, size_t n)
{
    void * p = 0;
    return posix_memalign(&p, a, n) ? 0 : p;
}
