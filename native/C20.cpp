// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "nt.hpp"
#include <optional>
int main() {
  nt::watchdog(170); nt::rng r; int n = nt::thorough() ? 400 : 40;
  for (int k = 0; k < n; ++k) { // random histories of copies, assignments, closings and registrations against a model
    auto m1 = std::make_shared<nt::mem::shared>(), m2 = std::make_shared<nt::mem::shared>(); std::atomic<std::int64_t> t{946688523123456789L}; struct st { int log = 0; std::string name; int level = 0; bool open = false; }; std::vector<std::pair<std::string, int>> want1, want2; // (name, number)
    { xtr::logger l1(xtr::storage_interface_ptr(new nt::mem(m1)), nt::clk{&t}, xtr::null_command_path), l2(xtr::storage_interface_ptr(new nt::mem(m2)), nt::clk{&t}, xtr::null_command_path); std::vector<std::optional<xtr::sink>> s(6); std::vector<st> w(6); int num = 0, nm = 0; int dl[3] = {0, 4, 4};
      for (int i = 0; i < 400; ++i) { std::size_t a = r(6), b = r(6); int lg = 1 + int(r(2)); xtr::logger& L = lg == 1 ? l1 : l2; std::string name = "N" + std::to_string(nm++); switch (r(12)) {
        case 0: if (!s[a]) { s[a].emplace(L.get_sink(name)); w[a] = {lg, name, dl[lg], true}; } break;
        case 1: if (!s[a]) { int lv = int(r(6)); s[a].emplace(xtr::log_level_t(lv)); w[a] = {0, "", lv, false}; } break;
        case 2: if (!s[a] && s[b]) { s[a].emplace(*s[b]); w[a] = w[b]; if (!w[b].open) w[a].log = 0; } break;
        case 3: if (s[a] && s[b]) { *s[a] = *s[b]; if (a != b) { w[a] = w[b]; } } break;
        case 4: if (s[a]) { s[a]->close(); w[a].open = false; if (r(2)) s[a]->close(); } break;
        case 5: if (s[a] && !w[a].open) { L.register_sink(*s[a], name); w[a].log = lg; w[a].name = name; w[a].open = true; } break;
        case 6: if (s[a]) { s[a].reset(); w[a] = {}; } break;
        case 7: if (s[a]) { int lv = int(r(6)); s[a]->set_level(xtr::log_level_t(lv)); w[a].level = lv; } break;
        case 8: dl[lg] = int(r(6)); L.set_default_log_level(xtr::log_level_t(dl[lg])); break;
        case 9: if (s[a] && w[a].open) { s[a]->set_name(name); w[a].name = name; } break;
        default: if (s[a] && w[a].open) { int c = int(r(2) ? r(4) : r(600)); for (int q = 0; q < c; ++q) { XTR_LOG(*s[a], "{}", num); (w[a].log == 1 ? want1 : want2).emplace_back(w[a].name, num++); } } }
        for (std::size_t q = 0; q < 6; ++q) if (s[q]) { CHECK(s[q]->is_open() == w[q].open, "sink %zu is %s after step %d", q, w[q].open ? "closed" : "open", i); CHECK(int(s[q]->level()) == w[q].level, "sink %zu has level %d instead of %d", q, int(s[q]->level()), w[q].level); if (!w[q].open) CHECK(s[q]->buf_.read_span().size() == 0, "a closed sink's queue is not empty"); } } }
    for (int g = 0; g < 2; ++g) { auto& want = g ? want2 : want1; auto l = nt::split((g ? m2 : m1)->text); CHECK(l.size() == want.size(), "logger %d: %zu of %zu messages", g + 1, l.size(), want.size()); std::vector<std::pair<int, std::string>> x, y; for (auto& q : l) { auto b = nt::body(q); auto p = q.find(".cpp:"); x.emplace_back(std::atoi(b.c_str()), q); } for (auto& q : want) y.emplace_back(q.second, q.first); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); for (std::size_t i = 0; i < x.size(); ++i) { CHECK(x[i].first == y[i].first, "message %d missing", y[i].first); CHECK(x[i].second.find(" " + y[i].second + " ") != std::string::npos, "message %d under another name than %s: <%.80s>", y[i].first, y[i].second.c_str(), x[i].second.c_str()); } } }
}
