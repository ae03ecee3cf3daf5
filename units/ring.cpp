// Instantiates the real ring buffer for verification; no logic of its own.
#include "xtr/detail/synchronized_ring_buffer.hpp"
#include "xtr/config.hpp"
#include "xtr/sink.hpp"
#include <cstddef>
using namespace xtr::detail;
using rb = xtr::sink::ring_buffer;
using rd = synchronized_ring_buffer<dynamic_capacity>;
template class xtr::detail::synchronized_ring_buffer<XTR_SINK_CAPACITY>;
template class xtr::detail::synchronized_ring_buffer<dynamic_capacity>;
#define INST(R) \
 template R::span R::write_span<void()>(std::size_t) noexcept; \
 template R::span R::write_span<void(xtr::non_blocking_tag)>(std::size_t) noexcept; \
 template R::span R::write_span_spec<void()>(std::size_t) noexcept; \
 template R::span R::write_span_spec<void(xtr::non_blocking_tag)>(std::size_t) noexcept;
INST(rb) INST(rd)
// the tag lists log statements use
template rb::span rb::write_span<void(xtr::timestamp_tag)>(std::size_t) noexcept;
template rb::span rb::write_span<void(xtr::non_blocking_tag, xtr::timestamp_tag)>(std::size_t) noexcept;
template rb::span rb::write_span_spec<void(xtr::timestamp_tag)>(std::size_t) noexcept;
template rb::span rb::write_span_spec<void(xtr::non_blocking_tag, xtr::timestamp_tag)>(std::size_t) noexcept;
#define OFFS(P, R) \
 extern const std::size_t VP_##P##_size = sizeof(R), VP_##P##_nwritten = offsetof(R, nwritten_), VP_##P##_wrbase = offsetof(R, wrbase_), \
  VP_##P##_wrcapacity = offsetof(R, wrcapacity_), VP_##P##_wrnrpc = offsetof(R, wrnread_plus_capacity_), \
  VP_##P##_wrnwritten = offsetof(R, wrnwritten_), VP_##P##_nrpc = offsetof(R, nread_plus_capacity_), \
  VP_##P##_dropped = offsetof(R, dropped_count_), \
  VP_##P##_mem = offsetof(R, m_) + offsetof(mirrored_memory_mapping, m_) + offsetof(memory_mapping, mem_), \
  VP_##P##_len = offsetof(R, m_) + offsetof(mirrored_memory_mapping, m_) + offsetof(memory_mapping, length_);
OFFS(rb, rb) OFFS(rd, rd)
extern const std::size_t VP_capacity = XTR_SINK_CAPACITY;
extern const std::size_t VP_ptr_align = alignof(void(*)());
