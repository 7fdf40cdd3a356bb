// Model of mutexes, thread ids and clocks (sequentially consistent; the order guarantees are
// tracked by the executor through the acquire/release marks).
#include "vx.h"
#include <cerrno>
#include <chrono>
#include <pthread.h>
#include <time.h>
unsigned vx_spurious = 0;
uint64_t vx_clock = 1000000000; // nanoseconds
extern "C" {
__attribute__((weak)) int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	uint32_t* w = (uint32_t*)m;
	vx_await(w, 0);
	*w = vx_tid() + 1;
	return 0;
}
__attribute__((weak)) int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
	uint32_t* w = (uint32_t*)m;
	uint32_t e = 0;
	return __atomic_compare_exchange_n(w, &e, vx_tid() + 1, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED) ? 0 : EBUSY;
}
__attribute__((weak)) int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	uint32_t* w = (uint32_t*)m;
	vx_assert(*w == (uint32_t)vx_tid() + 1, "unlock of a mutex which is not locked by this thread");
#ifdef VX_VISIBLE_UNLOCK
	__atomic_store_n(w, 0u, __ATOMIC_RELEASE);
#else
	// No switch right before the unlock: others could only notice that it is still locked.
	vx_atomic_begin();
	__atomic_store_n(w, 0u, __ATOMIC_RELEASE);
	vx_atomic_end();
#endif
	return 0;
}
__attribute__((weak)) int clock_gettime(clockid_t, struct timespec* t) noexcept
{
	t->tv_sec = vx_clock / 1000000000;
	t->tv_nsec = vx_clock % 1000000000;
	return 0;
}
__attribute__((weak)) bool vx_cv_finite(int64_t aDeadline)
{
	// Decades ahead is never, the past (also the negative time) is at once.
	return aDeadline < (int64_t)vx_clock || (uint64_t)aDeadline - vx_clock < 1000000000ull * 86400 * 3650;
}
__attribute__((weak)) long syscall(long, ...) noexcept { return vx_tid() + 1; }
}
namespace mg { namespace box {
	__attribute__((weak)) uint32_t GetCurrentThreadId() { return vx_tid() + 1; }
} }
namespace std { namespace chrono { inline namespace _V2 {
	__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)vx_clock)); }
} } }
