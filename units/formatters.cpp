// Instantiates the container, pair and tuple formatters; no logic of its own.
#include "xtr/logger.hpp"
#include "xtr/formatters.hpp"
#include <array>
#include <tuple>
#include <vector>
#include <cstddef>
struct vp_elem { long a, b; };
struct vp_map : std::vector<std::pair<int, long>> { using mapped_type = long; };
struct vp_omap : std::vector<std::pair<vp_elem, vp_elem>> { using mapped_type = vp_elem; };
namespace fmt { template<> struct formatter<vp_elem> { constexpr auto parse(format_parse_context& c) { return c.begin(); } template<class C> auto format(const vp_elem&, C& c) const { return c.out(); } }; }
using out_t = fmt::format_context::iterator;
#define F(N, ...) extern "C" out_t vp_f_##N(const __VA_ARGS__& v, fmt::format_context& c) { return fmt::formatter<__VA_ARGS__>{}.format(v, c); }
F(vec_int, std::vector<int>)
F(vec_elem, std::vector<vp_elem>)
F(vec_pair, std::vector<std::pair<int, long>>)
F(arr3, std::array<int, 3>)
F(arr1, std::array<vp_elem, 1>)
F(map_int, vp_map)
F(map_elem, vp_omap)
F(pair, std::pair<int, long>)
F(pair_elem, std::pair<vp_elem, int>)
F(tuple1, std::tuple<long>)
F(tuple3, std::tuple<int, vp_elem, long>)
F(tuple5, std::tuple<int, int, int, int, int>)
using p_il = std::pair<int, long>; using p_ei = std::pair<vp_elem, int>; using t1 = std::tuple<long>; using t3 = std::tuple<int, vp_elem, long>; using t5 = std::tuple<int, int, int, int, int>;
// where the standard library keeps the parts
#define G(T, N, I) extern "C" const void* vp_get_##N##_##I(const T& v) { return &std::get<I>(v); }
G(p_il, pair, 0) G(p_il, pair, 1) G(p_ei, pair_elem, 0) G(p_ei, pair_elem, 1) G(t1, tuple1, 0) G(t3, tuple3, 0) G(t3, tuple3, 1) G(t3, tuple3, 2)
G(t5, tuple5, 0) G(t5, tuple5, 1) G(t5, tuple5, 2) G(t5, tuple5, 3) G(t5, tuple5, 4)
extern const std::size_t VP_tuple1 = sizeof(t1), VP_tuple3 = sizeof(t3), VP_tuple5 = sizeof(t5), VP_pair = sizeof(p_il), VP_pair_elem = sizeof(p_ei), VP_ctx = sizeof(fmt::format_context);
