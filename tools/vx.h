// Harness API. Under the solver every vx_* input is an unconstrained symbolic value; natively
// (replay of a counterexample or of a witness) the values come from the trace file.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vx_u64(void);
uint32_t vx_u32(void);
uint16_t vx_u16(void);
uint8_t vx_u8(void);
bool vx_bool(void);
uint64_t vx_range(uint64_t aLo, uint64_t aHi); // inclusive
void vx_assume(bool aCond);
void vx_assert(bool aCond, const char* aMsg);
__attribute__((noreturn)) void vx_fail(const char* aMsg);
void vx_reach(const char* aLabel);
int64_t vx_live_allocs(void); // heap blocks allocated and not freed
void vx_main(void);

// Threads. vx_thread() registers a thread, vx_run() executes all of them: the given number of
// round-robin rounds, in each a thread runs any number (also zero) of its visible operations
// (atomic accesses, vx_await, vx_visible) chosen by the solver.
int vx_thread(void (*aFunc)(void*), void* aArg);
void vx_run(unsigned aRounds);
bool vx_finished(int aThread);
bool vx_deadlock(void); // nobody can go on and somebody waits
void vx_await(const uint32_t* aPtr, uint32_t aValue); // blocks until equal
void vx_await_ne(const uint32_t* aPtr, uint32_t aValue); // blocks until not equal
void vx_visible(void);
void vx_atomic_begin(void);
void vx_atomic_end(void);
int vx_tid(void); // 0 is main, threads are numbered from 1
// Happens-before tokens: an event k is recorded by one thread, and vx_hb_read() tells if it
// happens before the current point of this thread by the C++ memory model.
void vx_hb_on(void);
void vx_hb_write(unsigned aEvent);
bool vx_hb_read(unsigned aEvent);
}
