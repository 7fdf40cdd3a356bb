// Abstraction of mg::box::ThreadLocalPool by its specification (see the check C04).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include "mg/box/Assert.h"
#include "mg/box/Mutex.h"
namespace mg { namespace box {
	template<typename T, uint32_t BatchSize = 1024>
	class ThreadPooled
	{
	public:
		void* operator new(size_t aSize) { return malloc(aSize); }
		void operator delete(void* aPtr) { free(aPtr); }
	};
} }
