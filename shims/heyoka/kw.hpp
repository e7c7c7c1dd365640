#pragma once
#include <vector>
namespace heyoka::kw
{
struct tol_v { double v; };
struct tol_k { tol_v operator=(double x) const { return {x}; } };
struct pars_v { std::vector<double> v; };
struct pars_k { pars_v operator=(std::vector<double> x) const { return {std::move(x)}; } };
struct bool_v { bool v; };
struct bool_k { bool_v operator=(bool x) const { return {x}; } };
struct time_v { double v; };
struct time_k { time_v operator=(double x) const { return {x}; } };
inline constexpr tol_k tol{};
inline constexpr pars_k pars{};
inline constexpr bool_k compact_mode{};
inline constexpr bool_k high_accuracy{};
inline constexpr time_k time{};
} // namespace heyoka::kw
