// Instantiates the escaping formatters with a recording output iterator; no logic of its own.
#include "xtr/logger.hpp"
#include "src/file_descriptor.cpp"
#include "xtr/detail/strzcpy.hpp"
#include "xtr/detail/commands/frame.hpp"
#include "xtr/detail/commands/responses.hpp"
#include "xtr/detail/commands/connect.hpp"
#include <cstddef>
#include <vector>
#include <cerrno>
#include <new>
using namespace xtr; using namespace xtr::detail;
extern "C" void vp_put(char);
struct vp_slot { vp_slot& operator=(char c) { vp_put(c); return *this; } };
struct vp_out { vp_slot operator*() { return {}; } vp_out& operator++() { return *this; } vp_out operator++(int) { return *this; }
  using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void; using iterator_category = std::output_iterator_tag; };
struct vp_ctx { vp_out out() { return {}; } };
extern const std::size_t VP_sa_path = sizeof(sockaddr_un::sun_path), VP_sa_path_off = offsetof(sockaddr_un, sun_path), VP_sa_size = sizeof(sockaddr_un);
extern "C" {
void vp_sanitize(char c) { vp_out o; sanitize_char_to(o, c); }
void vp_fmt_cstr(const char* s) { vp_ctx c; fmt::formatter<string_ref<const char*>> f; f.format(string_ref<const char*>(s), c); }
void vp_fmt_sv(std::string_view s) { vp_ctx c; fmt::formatter<string_ref<std::string_view>> f; f.format(string_ref<std::string_view>(s), c); }
void vp_nocopy_cstr(const char* s) { vp_ctx c; auto r = nocopy(s); fmt::formatter<decltype(r)> f; f.format(r, c); }
void vp_nocopy_str(const std::string& s) { vp_ctx c; auto r = nocopy(s); fmt::formatter<decltype(r)> f; f.format(r, c); }
void vp_nocopy_sv(const std::string_view& s) { vp_ctx c; auto r = nocopy(s); fmt::formatter<decltype(r)> f; f.format(r, c); }
void vp_moved_str(const std::byte* rec, std::string& s) { vp_ctx c; auto&& r = transform_string_table_entry(rec, s); fmt::formatter<std::remove_cvref_t<decltype(r)>> f; f.format(r, c); }
void vp_entry(std::byte*& pos, string_table_entry e, std::string_view& out) { out = transform_string_table_entry(pos, e).str; }
void vp_entry_fmt(std::byte*& pos, string_table_entry e) { vp_ctx c; auto&& r = transform_string_table_entry(pos, e); fmt::formatter<std::remove_cvref_t<decltype(r)>> f; f.format(r, c); }
// fixed-size fields: reason of an error, name of a sink, socket path
void vp_zcpy_reason_sv(error& e, const std::string_view& s) { strzcpy(e.reason, s); }
void vp_zcpy_name_str(sink_info& e, const std::string& s) { strzcpy(e.name, s); }
void vp_zcpy_path_sv(sockaddr_un& e, const std::string_view& s) { strzcpy(e.sun_path, s); }
void vp_zcpy_1_sv(char (&d)[1], const std::string_view& s) { strzcpy(d, s); }
void vp_zcpy_2_sv(char (&d)[2], const std::string_view& s) { strzcpy(d, s); }
int vp_connect(std::string_view p, file_descriptor* out) { new (out) file_descriptor(command_connect(p)); return 0; }
}
extern const std::size_t VP_reason_off = offsetof(error, reason), VP_reason = sizeof(error::reason), VP_error_size = sizeof(error), VP_name_off = offsetof(sink_info, name), VP_name = sizeof(sink_info::name), VP_info_size = sizeof(sink_info);
extern const std::size_t VP_fd_size = sizeof(file_descriptor), VP_fd_off = offsetof(file_descriptor, fd_);
