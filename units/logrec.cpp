// One function per kind of log statement; no logic of its own.
#include "xtr/logger.hpp"
#include <cstddef>
using xtr::sink;
// an argument type whose copy, move and destruction are visible to the verifier
extern "C" { void vp_obj_copy(void*, const void*) noexcept; void vp_obj_move(void*, void*) noexcept; void vp_obj_destroy(void*) noexcept; }
struct vp_obj { long id, pad; vp_obj(const vp_obj& o) noexcept { vp_obj_copy(this, &o); } vp_obj(vp_obj&& o) noexcept { vp_obj_move(this, &o); } ~vp_obj() { vp_obj_destroy(this); } };
struct alignas(64) vp_wide { long a, b; };
struct alignas(64) vp_wobj { vp_obj o; };
struct vp_odd { char c[13]; };
struct vp_big { long a[33]; };
namespace fmt {
template<> struct formatter<vp_obj> { constexpr auto parse(format_parse_context& c) { return c.begin(); } template<class C> auto format(const vp_obj&, C& c) const { return c.out(); } };
template<> struct formatter<vp_wide> { constexpr auto parse(format_parse_context& c) { return c.begin(); } template<class C> auto format(const vp_wide&, C& c) const { return c.out(); } };
template<> struct formatter<vp_wobj> { constexpr auto parse(format_parse_context& c) { return c.begin(); } template<class C> auto format(const vp_wobj&, C& c) const { return c.out(); } };
template<> struct formatter<vp_big> { constexpr auto parse(format_parse_context& c) { return c.begin(); } template<class C> auto format(const vp_big&, C& c) const { return c.out(); } };
template<> struct formatter<vp_odd> { constexpr auto parse(format_parse_context& c) { return c.begin(); } template<class C> auto format(const vp_odd&, C& c) const { return c.out(); } };
}
#define BOTH(N, PARAMS, ...) \
 extern "C" void vp_b_##N(sink& s, PARAMS) { XTR_LOGL(warning, s, __VA_ARGS__); } \
 extern "C" void vp_n_##N(sink& s, PARAMS) { XTR_TRY_LOGL(warning, s, __VA_ARGS__); } \
 extern "C" void vp_bt_##N(sink& s, long& ts, PARAMS) { XTR_LOGL_TS(warning, s, ts, __VA_ARGS__); } \
 extern "C" void vp_nt_##N(sink& s, long& ts, PARAMS) { XTR_TRY_LOGL_TS(warning, s, ts, __VA_ARGS__); }
#define P(...) __VA_ARGS__
using str = std::string; using sv = std::string_view;
#line 77 "some/dir/vp.cpp"
BOTH(none, P(int), "F")
#line 77 "some/dir/vp.cpp"
BOTH(int, P(int& a), "F {}", a)
#line 77 "some/dir/vp.cpp"
BOTH(scalars, P(int& a, unsigned long& b, char& c), "F {} {} {}", a, b, c)
#line 77 "some/dir/vp.cpp"
BOTH(odd, P(vp_odd& a, char& b), "F {} {}", a, b)
#line 77 "some/dir/vp.cpp"
BOTH(wide, P(int& a, vp_wide& b), "F {} {}", a, b)
#line 77 "some/dir/vp.cpp"
BOTH(obj, P(vp_obj& a, vp_obj& b), "F {} {}", a, std::move(b))
#line 77 "some/dir/vp.cpp"
BOTH(cstr, P(const char* a), "F {}", a)
#line 77 "some/dir/vp.cpp"
BOTH(view, P(sv& a), "F {}", a)
#line 77 "some/dir/vp.cpp"
BOTH(str, P(const str& a), "F {}", a)
#line 77 "some/dir/vp.cpp"
BOTH(mstr, P(str& a), "F {}", std::move(a))
#line 77 "some/dir/vp.cpp"
BOTH(nstr, P(const char* a), "F {}", nocopy(a))
#line 77 "some/dir/vp.cpp"
BOTH(nview, P(sv& a), "F {}", nocopy(a))
#line 77 "some/dir/vp.cpp"
BOTH(two, P(const char* a, int& b, str& c), "F {} {} {}", a, b, c)
#line 77 "some/dir/vp.cpp"
BOTH(views, P(sv& a, sv& b), "F {} {}", a, b)
#line 77 "some/dir/vp.cpp"
BOTH(mix, P(vp_obj& a, sv& b, vp_wide& c, str& d), "F {} {} {} {}", a, b, c, std::move(d))
#line 77 "some/dir/vp.cpp"
BOTH(wobj, P(char& a, vp_wobj& b), "F {} {}", a, std::move(b))
#line 77 "some/dir/vp.cpp"
BOTH(wmix, P(vp_wobj& a, sv& b), "F {} {}", a, std::move(b))
#line 77 "some/dir/vp.cpp"
BOTH(big, P(vp_big& a, char& b), "F {} {}", a, b)
#line 77 "some/dir/vp.cpp"
BOTH(mcstr, P(char* a, vp_big& b), "F {} {}", a, b)
#line 58 "logrec.cpp"
using ring = sink::ring_buffer; using xtr::detail::build_string_table; using B = std::byte*;
#define BST(N, ...) \
 extern "C" unsigned vp_bst_cstr_##N(B& p, B& e, ring& r, const char* a) { return build_string_table<__VA_ARGS__>(p, e, r, a).size; } \
 extern "C" unsigned vp_bst_view_##N(B& p, B& e, ring& r, const sv& a) { return build_string_table<__VA_ARGS__>(p, e, r, a).size; } \
 extern "C" unsigned vp_bst_str_##N(B& p, B& e, ring& r, const str& a) { return build_string_table<__VA_ARGS__>(p, e, r, a).size; }
BST(b, void(void())) BST(n, void(xtr::non_blocking_tag)) BST(bt, void(xtr::timestamp_tag)) BST(nt, void(xtr::non_blocking_tag, xtr::timestamp_tag))
extern const std::size_t VP_sink_size = sizeof(sink), VP_level = offsetof(sink, level_), VP_buf = offsetof(sink, buf_), VP_open = offsetof(sink, open_);
extern const std::size_t VP_capacity = XTR_SINK_CAPACITY, VP_warning = std::size_t(xtr::log_level_t::warning);
extern const std::size_t VP_bf_size = sizeof(xtr::detail::buffer), VP_bf_line = offsetof(xtr::detail::buffer, line), VP_bf_lstyle = offsetof(xtr::detail::buffer, lstyle);
