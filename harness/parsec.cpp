// SOURCES: src/parsec/ticket_machine/impl.cpp src/parsec/directory/impl.cpp
// LIBS: common crypto
// FLAGS: -fno-sanitize=all -O2
#include "h.hpp"
#include "parsec/ticket_machine/impl.hpp"
#include "parsec/directory/impl.hpp"
#include <atomic>
#include <map>
#include <thread>
using namespace cbdc;
namespace tm_ = cbdc::parsec::ticket_machine;
static auto logger = std::make_shared<logging::log>(logging::log_level::fatal);
using rng_t = std::pair<uint64_t, uint64_t>;
static std::vector<rng_t> ask(tm_::impl& m, unsigned n) {
    std::vector<rng_t> v; v.reserve(n);
    for(unsigned i = 0; i < n; i++) {
        unsigned calls = 0;
        bool ok = m.get_ticket_number([&](tm_::interface::get_ticket_number_return_type r) {
            calls++;
            if(auto* p = std::get_if<tm_::interface::ticket_number_range_type>(&r)) v.emplace_back(p->first, p->second);
        });
        vh::check(ok && calls == 1 && v.size() == i + 1, "every request is answered once, with a range");
    }
    return v;
}
static void tickets(vh::rng& r, bool threads) {
    uint64_t range = r.chance(20) ? 1 : (r.chance(10) ? (1ULL << 33) + 1 : 1 + r.below(1000)); tm_::impl m(logger, range);
    unsigned nt = threads ? 4 : 1, per = threads ? 20000 : 1 + (unsigned)r.below(50);
    vh::logf("range", range, "threads", nt, "requests each", per);
    std::vector<std::vector<rng_t>> got(nt);
    if(threads) { std::vector<std::thread> t; std::atomic<unsigned> go{0}; for(unsigned i = 0; i < nt; i++) t.emplace_back([&, i] { go++; while(go < nt) {} got[i] = ask(m, per); }); for(auto& x : t) x.join(); }
    else got[0] = ask(m, per);
    std::vector<rng_t> all; for(auto& g : got) { for(size_t i = 0; i + 1 < g.size(); i++) vh::check(g[i].first < g[i + 1].first, "numbers ascend over time"); all.insert(all.end(), g.begin(), g.end()); }
    std::sort(all.begin(), all.end());
    for(size_t i = 0; i < all.size(); i++) {
        vh::check(all[i].second - all[i].first == range, "a range has the configured size");
        if(i) vh::check(all[i].first >= all[i - 1].second, "ranges do not overlap: " + std::to_string(all[i - 1].first) + " and " + std::to_string(all[i].first));
    }
}
static void dirs(vh::rng& r) {
    size_t n = r.chance(20) ? 1 : 1 + r.below(300); parsec::directory::impl d(n), d2(n); std::map<std::string, uint64_t> seen; vh::logf("shards", n);
    for(unsigned k = 0; k < 60; k++) {
        std::string s; unsigned l = (unsigned)r.below(k < 20 ? 3 : 60); for(unsigned i = 0; i < l; i++) s.push_back((char)r.below(k < 20 ? 2 : 256));
        if(k % 3 == 2 && !seen.empty()) { auto it = seen.begin(); std::advance(it, (long)r.below(seen.size())); s = it->first; }
        buffer b; b.append(s.data(), s.size()); unsigned calls = 0; uint64_t a = 0, c = 0;
        bool ok = d.key_location(b, [&](uint64_t x) { calls++; a = x; }); d2.key_location(b, [&](uint64_t x) { c = x; });
        vh::check(ok && calls == 1, "a location request is answered once");
        vh::check(a < n, "the location is an existing shard: " + std::to_string(a));
        vh::check(a == c && (!seen.count(s) || seen[s] == a), "a key always maps to the same shard");
        seen[s] = a;
    }
}
int main(int argc, char** argv) {
    unsigned n = 0;
    return vh::main_loop(argc, argv, [&](vh::rng& r) { auto k = r.below(100); if(k < 2) tickets(r, true); else if(k < 50) tickets(r, false); else dirs(r); n++; });
}
