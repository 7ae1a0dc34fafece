#pragma once
#include <array>
#include <vector>
#include <cstdint>
#include <limits>
namespace thinks {
template <typename FloatT, std::size_t N>
std::vector<std::array<FloatT, N>> PoissonDiskSampling(FloatT radius, const std::array<FloatT, N>& x_min, const std::array<FloatT, N>& x_max, std::uint32_t max_sample_attempts = 30, std::uint32_t seed = 0);
}
