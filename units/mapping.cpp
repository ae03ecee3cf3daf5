// One function per operation of the mapping classes; no logic of its own.
#include "src/memory_mapping.cpp"
#include "src/mirrored_memory_mapping.cpp"
#include "src/pagesize.cpp"
#include <cstddef>
#include <new>
using mm = xtr::detail::memory_mapping; using mir = xtr::detail::mirrored_memory_mapping; using st = std::size_t;
extern "C" {
void vp_mm_default(void* p) { ::new (p) mm; }
void vp_mm_map(void* p, void* a, st n, int prot, int flags, int fd, st off) { ::new (p) mm(a, n, prot, flags, fd, off); }
void vp_mm_move(void* p, mm& o) { ::new (p) mm(std::move(o)); }
void vp_mm_assign(mm& a, mm& b) { a = std::move(b); }
void vp_mm_dtor(mm& a) { a.~mm(); }
void vp_mm_reset(mm& a, void* p, st n) { a.reset(p, n); }
void vp_mm_reset0(mm& a) { a.reset(); }
void vp_mm_release(mm& a) { a.release(); }
void* vp_mm_get(mm& a) { return a.get(); }
const void* vp_mm_cget(const mm& a) { return a.get(); }
st vp_mm_length(const mm& a) { return a.length(); }
bool vp_mm_bool(const mm& a) { return bool(a); }
void vp_mm_swap(mm& a, mm& b) { using std::swap; swap(a, b); }
void vp_mir_default(void* p) { ::new (p) mir; }
void vp_mir_map(void* p, st n, int fd, st off, int flags) { ::new (p) mir(n, fd, off, flags); }
void vp_mir_move(void* p, mir& o) { ::new (p) mir(std::move(o)); }
void vp_mir_assign(mir& a, mir& b) { a = std::move(b); }
void vp_mir_dtor(mir& a) { a.~mir(); }
void* vp_mir_get(mir& a) { return a.get(); }
st vp_mir_length(const mir& a) { return a.length(); }
bool vp_mir_bool(const mir& a) { return bool(a); }
st vp_page(st n) { return xtr::detail::align_to_page_size(n); }
}
extern const st VP_mm_size = sizeof(mm), VP_mm_mem = offsetof(mm, mem_), VP_mm_len = offsetof(mm, length_);
extern const st VP_mir_size = sizeof(mir), VP_mir_m = offsetof(mir, m_);
extern const st VP_PROT = PROT_READ | PROT_WRITE, VP_FIXED = MAP_FIXED, VP_SHARED = MAP_SHARED, VP_ANON = MAP_ANONYMOUS, VP_PRIVATE = MAP_PRIVATE, VP_RFIXED = MREMAP_FIXED, VP_MAYMOVE = MREMAP_MAYMOVE;
