// The real matcher sources; no logic of its own.
#include "src/matcher.cpp"
#include "src/regex_matcher.cpp"
#include "src/wildcard_matcher.cpp"
#include <fnmatch.h>
using namespace xtr; using namespace xtr::detail;
extern const std::size_t VP_pt_none = std::size_t(pattern_type_t::none), VP_pt_ext = std::size_t(pattern_type_t::extended_regex), VP_pt_basic = std::size_t(pattern_type_t::basic_regex), VP_pt_wild = std::size_t(pattern_type_t::wildcard),
  VP_reg_nosub = REG_NOSUB, VP_reg_icase = REG_ICASE, VP_reg_ext = REG_EXTENDED, VP_fnm_fold = FNM_CASEFOLD, VP_regex_size = sizeof(regex_t);
extern "C" {
matcher* vp_mm_make(pattern_type_t t, const char* p, bool ic) { return make_matcher(t, p, ic).release(); }
bool vp_mm_valid(matcher& m) { return m.valid(); }
bool vp_mm_call(matcher& m, const char* s) { return m(s); }
void vp_mm_reason(matcher& m, char* b, std::size_t n) { m.error_reason(b, n); }
void vp_mm_delete(matcher* m) { delete m; }
}
