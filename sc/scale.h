// Sizes and orders for programs with large populations.
#pragma once
#include "nat.h"
namespace h {
	// a population: around the sizes where narrow counters wrap, or anything in between
	inline size_t big(size_t cap) {
		static const size_t edge[] = {62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 16383, 16384, 16385, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
		size_t n;
		do n = coin(3) ? 1 + rnd(coin() ? 600 : 70000) : edge[rnd(sizeof edge / sizeof *edge)];
		while (n > cap);
		vrt_sig(n);
		vrt_count(n > 65535 ? "populations_over_65535" : n > 255 ? "populations_over_255" : "populations_small", 1);
		vrt_nontrivial();
		return n;
	}
	using u32 = uint32_t;
	inline std::vector<u32> permutation(size_t n) {
		std::vector<u32> p(n);
		for (size_t i = 0; i < n; i++) p[i] = (u32)i;
		if (coin(3)) std::reverse(p.begin(), p.end());
		else if (coin())
			for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[rnd(i)]);
		return p;
	}
} // namespace h
