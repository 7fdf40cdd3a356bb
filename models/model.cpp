// The clock and sleeping of the models.
#include "vx.h"
#include "mg/box/Thread.h"
#include "mg/box/Time.h"
extern "C" { __attribute__((weak)) uint64_t vx_now = 1000; }
namespace mg { namespace box {
	__attribute__((weak)) uint64_t GetMilliseconds() { return vx_now; }
	__attribute__((weak)) void Sleep(uint64_t aDuration) { vx_visible(); vx_now += aDuration; }
	__attribute__((weak)) uint32_t GetCurrentThreadId() { return vx_tid() + 1; }
} }
