#include "vx.h"
#include "mg/box/IOVec.h"

// Any N vectors of any sizes, any propagation in one or two steps.
extern "C" void vx_main()
{
	static mg::box::IOVec v[N + 1];
	size_t size[N];
	uint8_t* data[N];
	size_t total = 0;
	for (unsigned i = 0; i < N; ++i)
	{
		size[i] = vx_u32() & MAXSIZE;
		data[i] = (uint8_t*)((i + 1ull) << 40);
		v[i].mySize = size[i];
		v[i].myData = data[i];
		total += size[i];
	}
	v[N].mySize = 77;
	v[N].myData = &v[N];
	mg::box::IOVec* pos = v;
	uint32_t count = N;
	uint64_t done = 0;
	for (int step = 0; step < STEPS; ++step)
	{
		uint32_t n = vx_u32() & (MAXSIZE * 4 + 3);
		vx_assume(done + n <= total);
		// When all is consumed the cursor may be past the last one, then there is nothing to propagate.
		vx_assume(count > 0 || n == 0);
		mg::box::IOVecPropagate(pos, count, n);
		done += n;
		vx_assert(pos >= v && pos <= v + N, "cursor out of the array");
		vx_assert(pos + count == v + N, "count does not match the position");
		// What is left is exactly the tail.
		uint64_t skip = done;
		for (unsigned i = 0; i < N; ++i)
		{
			uint64_t here = skip < size[i] ? skip : size[i];
			skip -= here;
			if (v + i < pos)
				vx_assert(here == size[i], "not consumed bytes are skipped");
			else if (here != size[i] || size[i] == 0)
			{
				vx_assert(v[i].mySize == size[i] - here, "size of the rest");
				if (size[i] != 0)
					vx_assert(v[i].myData == data[i] + here, "data of the rest");
			}
			else
				vx_assert(v[i].mySize == 0, "consumed bytes are left");
		}
		vx_assert(v[N].mySize == 77 && v[N].myData == &v[N], "touched outside of the array");
	}
	vx_reach("end");
}
