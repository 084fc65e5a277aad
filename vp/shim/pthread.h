#include_next <pthread.h>
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
/* Cancellation is not modelled; the handler runs when popped with a true argument */
#define pthread_cleanup_push(f,a) do { void (*vp_cleanup_f)(void *) = (f); void *vp_cleanup_a = (a);
#define pthread_cleanup_pop(ex) if (ex) { vp_cleanup_f(vp_cleanup_a); } } while(0)
