// Glue between the harnesses and the library under test.
#pragma once
#include "mc.hpp"
#include "img.hpp"
#include <memory>
#include <boost/filesystem.hpp>
#include "Class_1CD.h"
#include "V8Object.h"
#include "Table.h"
#include "MemBlock.h"
#include "Common.h"
#include "SystemClasses/TFileStream.hpp"
#include "SystemClasses/TMemoryStream.hpp"

namespace fs_ = boost::filesystem;
using mc::Bytes;

// position-dependent filler: any 4 aligned bytes identify (tag, offset)
inline Bytes pattern(uint32_t tag, uint64_t from, size_t n)
{
	Bytes r(n, '\0');
	uint64_t w = ~0ull; uint32_t v = 0;
	for (size_t i = 0; i < n; i++) {
		uint64_t p = from + i;
		if (p / 4 != w) { w = p / 4; uint64_t x = (w + 1) * 0x9E3779B97F4A7C15ull + tag * 0xC2B2AE3D27D4EB4Full; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; v = (uint32_t)(x >> 32); }
		r[i] = (char)(v >> (8 * (p % 4)));
	}
	return r;
}

inline std::unique_ptr<T_1CD> open_base(const std::string &path, bool write = true)
{
	std::unique_ptr<T_1CD> b(new T_1CD(fs_::path(path), nullptr, write));
	return b;
}

inline void drop_cache(T_1CD &b) { const_cast<MemBlockManager &>(b.getMemBlockManager()).garbage(true); }
