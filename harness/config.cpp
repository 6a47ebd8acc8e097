// SOURCES: src/util/common/config.cpp src/util/common/hash.cpp src/util/common/buffer.cpp src/util/common/logging.cpp src/util/common/hashmap.cpp
// LIBS: common crypto
// FLAGS: -fno-access-control
// Oracle: the configuration as generated, read by a second, independent reading of the rules.
#include "h.hpp"
#include "util/common/config.hpp"
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace cbdc; using namespace cbdc::config;
using std::string;
static string up(string s) { for(auto& c : s) c = (char)toupper(c); return s; }
struct cfgen {
    vh::rng& r; std::vector<std::pair<string, string>> lines; std::map<string, string> env; bool broken{false}, broken_env{false};   // broken: a value that must be refused by the parser (throws)
    unsigned odds; long drop{-1};   // drop: the one endpoint that is missing
    void put(const string& k, const string& v, bool bad = false) {
        auto in_env = r.chance(6); if(bad) (in_env ? broken_env : broken) = true;
        if(in_env) { env[up(k)] = v; if(r.chance(50)) lines.emplace_back(k, r.chance(50) ? "77" : "\"other\""); }
        else { lines.emplace_back(k, v); if(r.chance(4)) lines.emplace_back(k, "\"second\""); }   // the first occurrence counts
    }
    std::optional<size_t> num(const string& k, size_t v) {
        if(r.chance(odds)) switch(r.below(4)) { case 0: return std::nullopt; case 1: put(k, "\"" + std::to_string(v) + "\""); return std::nullopt; case 2: put(k, std::to_string(v) + ".5"); return std::nullopt;
            default: { static const char* bad[] = {"12x", "x", "-3", "1 2", "99999999999999999999999", "\"5", "5\"", "\""}; put(k, bad[r.below(8)], true); return std::nullopt; } }
        put(k, std::to_string(v) + (r.chance(5) ? " " : r.chance(5) ? "\r" : "")); return v;
    }
    std::optional<string> str(const string& k, const string& v) {
        if(r.chance(odds)) switch(r.below(3)) { case 0: return std::nullopt; case 1: put(k, "5"); return std::nullopt; default: put(k, r.chance(50) ? "\"" + v : v + "\"", true); return std::nullopt; }
        put(k, "\"" + v + "\"" + (r.chance(5) ? "\r" : "")); return v;
    }
    std::optional<network::endpoint_t> ep(const string& k) {
        string h = r.chance(50) ? "127.0.0.1" : "host" + std::to_string(r.below(9)); auto p = (unsigned short)(r.chance(10) ? 65535 : r.below(65536));
        if(drop-- == 0) return std::nullopt;
        if(r.chance(odds)) switch(r.below(4)) { case 0: return std::nullopt; case 1: put(k, "7"); return std::nullopt;
            default: { static const char* bad[] = {"host", "host:", ":", "", ":80", "host:80x", "host:65536", "host:-1", "host:80:90", "host: 80", "host:4294967376", "host:99999999999999999999999999", "::1", "host:+5"}; put(k, string("\"") + bad[r.below(14)] + "\""); return std::nullopt; } }
        put(k, "\"" + h + ":" + std::to_string(p) + "\""); return network::endpoint_t{h, p};
    }
    std::optional<logging::log_level> lvl(const string& k) {
        static const char* nm[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"}; static const logging::log_level lv[] = {logging::log_level::trace, logging::log_level::debug, logging::log_level::info, logging::log_level::warn, logging::log_level::error, logging::log_level::fatal};
        if(r.chance(60)) return std::nullopt; if(r.chance(10)) { put(k, "\"warn\""); return std::nullopt; } auto i = r.below(6); put(k, string("\"") + nm[i] + "\""); return lv[i];
    }
    // a key: value; ok: well formed
    std::optional<std::pair<hash_t, bool>> key(const string& k) {
        hash_t h; string t; auto same = r.chance(25); for(auto& b : h) { b = same ? (unsigned char)0xa5 : (unsigned char)r.next(); char x[3]; snprintf(x, 3, r.chance(50) ? "%02x" : "%02X", b); t += x; }
        if(r.chance(odds)) switch(r.below(4)) { case 0: return std::nullopt; case 1: t.pop_back(); put(k, "\"" + t + "\""); return std::make_pair(h, false); case 2: t[r.below(64)] = "g +-x"[r.below(5)]; put(k, "\"" + t + "\""); return std::make_pair(h, false); default: put(k, "\"" + t + "00\""); return std::make_pair(h, false); }
        put(k, "\"" + t + "\""); return std::make_pair(h, true);
    }
};
static string n(size_t i) { return std::to_string(i); }
static void one(vh::rng& r) {
    cfgen g{r, {}, {}, false, r.chance(60) ? 0U : 1U + (unsigned)r.below(4)};
    options o; bool err = false; auto need = [&](bool ok) { if(!ok) err = true; return ok; }; auto def = logging::log_level::warn;
    if(!g.odds && r.chance(40)) g.drop = (long)r.below(30);
    bool two = r.chance(50); { auto v = g.num("2pc", two ? 1 + r.below(3) : 0); two = v.value_or(0) != 0; } o.m_twophase_mode = two;
    auto cnt = [&](unsigned zero, size_t max) { return (size_t)(r.chance(zero) ? 0 : 1 + r.below(max)); };
    // sentinels
    o.m_attestation_threshold = 1; if(r.chance(60)) o.m_attestation_threshold = g.num("attestation_threshold", r.below(4)).value_or(1);
    size_t sc = g.num("sentinel_count", cnt(15, 3)).value_or(0);
    for(size_t i = 0; i < sc; i++) { string p = "sentinel" + n(i) + "_"; auto e = g.ep(p + "endpoint"); if(need(e.has_value())) o.m_sentinel_endpoints.push_back(*e); o.m_sentinel_loglevels.push_back(g.lvl(p + "loglevel").value_or(def));
        if(r.chance(70)) { auto k = g.key(p + "private_key"); if(k) { need(k->second); o.m_sentinel_private_keys[i] = k->first; } }
        if(r.chance(o.m_attestation_threshold == 0 ? 50 : 98)) { auto k = g.key(p + "public_key"); if(k) { need(k->second); o.m_sentinel_public_keys.insert(k->first); } else need(o.m_attestation_threshold == 0); } else need(o.m_attestation_threshold == 0); }
    // shards
    size_t sh = g.num("shard_count", cnt(15, 3)).value_or(0);
    if(two) { o.m_locking_shard_endpoints.resize(sh); o.m_locking_shard_raft_endpoints.resize(sh); o.m_locking_shard_readonly_endpoints.resize(sh); }
    for(size_t i = 0; i < sh; i++) { string p = "shard" + n(i) + "_";
        if(two) { auto c = g.num(p + "count", cnt(5, 3)); if(need(c.has_value())) for(size_t j = 0; j < *c; j++) { auto q = p + n(j) + "_"; auto a = g.ep(q + "raft_endpoint"), b = g.ep(q + "endpoint"), d = g.ep(q + "readonly_endpoint"); if(need(a && b && d)) { o.m_locking_shard_raft_endpoints[i].push_back(*a); o.m_locking_shard_endpoints[i].push_back(*b); o.m_locking_shard_readonly_endpoints[i].push_back(*d); } } }
        else { auto e = g.ep(p + "endpoint"); if(need(e.has_value())) o.m_shard_endpoints.push_back(*e); auto d = g.str(p + "db", "db" + n(r.below(99)) + (r.chance(10) ? "=x" : "")); if(need(d.has_value())) o.m_shard_db_dirs.push_back(*d); }
        o.m_shard_loglevels.push_back(g.lvl(p + "loglevel").value_or(def));
        bool wide = g.odds && r.chance(g.odds * 3); auto a = g.num(p + "start", wide && r.chance(50) ? 256 + r.below(300) : r.below(256)), b = g.num(p + "end", wide ? 256 + r.below(600) : r.below(256));
        if(need(a && b && *a < 256 && *b < 256)) o.m_shard_ranges.emplace_back((uint8_t)*a, (uint8_t)*b); }
    auto opt = [&](const char* k, size_t& v) { if(r.chance(25)) v = g.num(k, r.chance(20) ? ~(size_t)0 - r.below(3) : r.below(5000)).value_or(v); };
    auto opt32 = [&](const char* k, int32_t& v) { if(r.chance(25)) v = (int32_t)g.num(k, r.below(5000)).value_or((size_t)v); };
    auto optd = [&](const char* k, double& v) { if(r.chance(25)) { auto m = r.below(4); if(m == 0) g.num(k, 3); else if(m == 1 && g.odds) { g.put(k, r.chance(50) ? "1.5x" : "1.2.3", true); } else { auto w = (double)r.below(100) + 0.25 * (double)r.below(4); char t[32]; snprintf(t, 32, "%.2f", w); g.put(k, t); v = w; } } };
    opt("shard_completed_txs_cache_size", o.m_shard_completed_txs_cache_size);
    if(r.chance(40)) { o.m_seed_from = g.num("seed_from", r.below(20)).value_or(0); o.m_seed_to = g.num("seed_to", r.below(30)).value_or(0); }
    { bool val = r.chance(80); size_t sv = 0; std::optional<std::pair<hash_t, bool>> k; bool has = r.chance(90); if(has) k = g.key("seed_privkey"); if(val) sv = g.num("seed_value", r.below(5)).value_or(0);
      if(o.m_seed_from != o.m_seed_to) { if(need(k && k->second)) o.m_seed_privkey = k->first; o.m_seed_value = sv; need(o.m_seed_from < o.m_seed_to && sv != 0); } }
    // atomizers, archivers, watchtowers, coordinators
    size_t c = g.num("atomizer_count", cnt(two ? 60 : 8, 3)).value_or(0);
    for(size_t i = 0; i < c; i++) { string p = "atomizer" + n(i) + "_"; auto e = g.ep(p + "endpoint"), f = g.ep(p + "raft_endpoint"); if(need(e && f)) { o.m_atomizer_endpoints.push_back(*e); o.m_atomizer_raft_endpoints.push_back(*f); } o.m_atomizer_loglevels.push_back(g.lvl(p + "loglevel").value_or(def)); }
    opt("target_block_interval", o.m_target_block_interval); opt("stxo_cache_depth", o.m_stxo_cache_depth);
    c = g.num("archiver_count", cnt(two ? 60 : 8, 2)).value_or(0);
    for(size_t i = 0; i < c; i++) { string p = "archiver" + n(i) + "_"; auto e = g.ep(p + "endpoint"); auto d = g.str(p + "db", "adb" + n(i)); if(need(e && d)) { o.m_archiver_endpoints.push_back(*e); o.m_archiver_db_dirs.push_back(*d); } o.m_archiver_loglevels.push_back(g.lvl(p + "loglevel").value_or(def)); }
    c = g.num("watchtower_count", cnt(two ? 60 : 8, 2)).value_or(0);
    for(size_t i = 0; i < c; i++) { string p = "watchtower" + n(i) + "_"; auto e = g.ep(p + "client_endpoint"), f = g.ep(p + "internal_endpoint"); if(need(e && f)) { o.m_watchtower_client_endpoints.push_back(*e); o.m_watchtower_internal_endpoints.push_back(*f); } o.m_watchtower_loglevels.push_back(g.lvl(p + "loglevel").value_or(def)); }
    opt("watchtower_block_cache_size", o.m_watchtower_block_cache_size); opt("watchtower_error_cache_size", o.m_watchtower_error_cache_size);
    c = g.num("coordinator_count", cnt(two ? 8 : 60, 2)).value_or(0); o.m_coordinator_endpoints.resize(c); o.m_coordinator_raft_endpoints.resize(c);
    for(size_t i = 0; i < c; i++) { string p = "coordinator" + n(i) + "_"; o.m_coordinator_loglevels.push_back(g.lvl(p + "loglevel").value_or(def)); auto k = g.num(p + "count", cnt(5, 3)); if(need(k.has_value())) for(size_t j = 0; j < *k; j++) { auto q = p + n(j) + "_"; auto a = g.ep(q + "raft_endpoint"), b = g.ep(q + "endpoint"); if(need(a && b)) { o.m_coordinator_raft_endpoints[i].push_back(*a); o.m_coordinator_endpoints[i].push_back(*b); } } }
    opt("coordinator_max_threads", o.m_coordinator_max_threads);
    opt32("election_timeout_upper", o.m_election_timeout_upper); opt32("election_timeout_lower", o.m_election_timeout_lower); opt32("heartbeat", o.m_heartbeat); opt32("snapshot_distance", o.m_snapshot_distance); opt32("raft_max_batch", o.m_raft_max_batch); opt("batch_size", o.m_batch_size);
    opt("loadgen_sendtx_input_count", o.m_input_count); opt("loadgen_sendtx_output_count", o.m_output_count); optd("loadgen_invalid_tx_rate", o.m_invalid_rate); optd("loadgen_fixed_tx_rate", o.m_fixed_tx_rate); o.m_fixed_tx_mode = o.m_input_count != 0 && o.m_output_count != 0;
    opt("window_size", o.m_window_size); opt("initial_mint_count", o.m_initial_mint_count); opt("initial_mint_value", o.m_initial_mint_value); opt("loadgen_count", o.m_loadgen_count);
        // what the architecture needs
    if(two) need(!o.m_sentinel_endpoints.empty() && o.m_sentinel_endpoints.size() >= o.m_attestation_threshold && !o.m_locking_shard_endpoints.empty() && !o.m_coordinator_endpoints.empty());
    else need(!o.m_watchtower_client_endpoints.empty() && !o.m_archiver_endpoints.empty() && !o.m_atomizer_endpoints.empty() && (!o.m_shard_endpoints.empty() || o.m_sentinel_endpoints.empty()));
    need(o.m_sentinel_public_keys.size() >= o.m_attestation_threshold);
    // write it down, keeping the order of equal keys
    auto dir = std::filesystem::temp_directory_path() / ("dv_cfg_" + n((size_t)getpid())); std::filesystem::create_directories(dir); auto file = dir / "c.cfg";
    { std::ofstream f(file); std::stable_sort(g.lines.begin(), g.lines.end(), [&](auto& a, auto& b) { auto h = [](const string& s) { return std::hash<string>{}(s) % 7; }; return h(a.first) < h(b.first); }); for(auto& [k, v] : g.lines) { f << k << "=" << v << "\n"; if(r.chance(3)) f << (r.chance(50) ? "\n" : "no value\n"); } }
    string all; for(auto& [k, v] : g.lines) if(g.lines.size() < 25 || k.find("key") == string::npos) all += k + "=" + v + " "; vh::logf(two ? "2pc" : "atomizer", err ? "(to be refused)" : "", g.broken ? "(malformed)" : "", all); for(auto& [k, v] : g.env) { vh::logf("env", k, v); setenv(k.c_str(), v.c_str(), 1); }
    bool threw = false; std::variant<options, string> got; string why;
    try { got = load_options(file.string()); } catch(const std::invalid_argument& e) { threw = true; why = e.what(); } catch(const std::out_of_range& e) { threw = true; why = e.what(); }
    for(auto& [k, v] : g.env) unsetenv(k.c_str()); std::filesystem::remove_all(dir);
    if(threw) { vh::check(g.broken || g.broken_env, "a well-formed configuration is refused by the parser: " + why); return; }
    vh::check(!g.broken, "a malformed value is read as something else");
    if(g.broken_env) return;   // noticed when it is asked for
    if(std::holds_alternative<string>(got)) { vh::check(err, "a complete configuration is refused: " + std::get<string>(got)); vh::check(!std::get<string>(got).empty(), "no explanation"); return; }
    vh::check(!err, "an incomplete configuration is accepted");
    auto& t = std::get<options>(got);
#define SAME(x) vh::check(t.x == o.x, "read as written: " #x)
    SAME(m_twophase_mode); SAME(m_attestation_threshold); SAME(m_sentinel_endpoints); SAME(m_sentinel_loglevels); SAME(m_sentinel_private_keys); SAME(m_sentinel_public_keys); SAME(m_locking_shard_endpoints); SAME(m_locking_shard_raft_endpoints); SAME(m_locking_shard_readonly_endpoints); SAME(m_shard_endpoints); SAME(m_shard_db_dirs); SAME(m_shard_loglevels); SAME(m_shard_ranges);
    SAME(m_shard_completed_txs_cache_size); SAME(m_seed_from); SAME(m_seed_to); SAME(m_seed_privkey); SAME(m_seed_value); SAME(m_atomizer_endpoints); SAME(m_atomizer_raft_endpoints); SAME(m_atomizer_loglevels); SAME(m_target_block_interval); SAME(m_stxo_cache_depth); SAME(m_archiver_endpoints); SAME(m_archiver_db_dirs); SAME(m_archiver_loglevels);
    SAME(m_watchtower_client_endpoints); SAME(m_watchtower_internal_endpoints); SAME(m_watchtower_loglevels); SAME(m_watchtower_block_cache_size); SAME(m_watchtower_error_cache_size); SAME(m_coordinator_endpoints); SAME(m_coordinator_raft_endpoints); SAME(m_coordinator_loglevels); SAME(m_coordinator_max_threads); SAME(m_election_timeout_upper); SAME(m_election_timeout_lower); SAME(m_heartbeat); SAME(m_snapshot_distance); SAME(m_raft_max_batch); SAME(m_batch_size);
    SAME(m_input_count); SAME(m_output_count); SAME(m_invalid_rate); SAME(m_fixed_tx_rate); SAME(m_fixed_tx_mode); SAME(m_window_size); SAME(m_initial_mint_count); SAME(m_initial_mint_value); SAME(m_loadgen_count);
    { options q; q.m_seed_from = r.below(50); q.m_seed_to = q.m_seed_from + r.below(60); q.m_loadgen_count = 1 + r.below(8); auto share = (q.m_seed_to - q.m_seed_from) / q.m_loadgen_count;
      if(share > 0) { vh::logf("shares of", q.m_seed_from, q.m_seed_to, q.m_loadgen_count); for(size_t i = 0; i < q.m_loadgen_count; i++) { auto [a, b] = loadgen_seed_range(q, i); vh::check(a == q.m_seed_from + i * share && b == a + share - 1, "a load generator's share of the seeds"); } } }
    // load generators share out the seeded outputs
    if(o.m_seed_from != o.m_seed_to && t.m_loadgen_count > 0) { auto lc = std::min<size_t>(t.m_loadgen_count, 6); if(t.m_loadgen_count <= t.m_seed_to - t.m_seed_from) { size_t last = t.m_seed_from; for(size_t i = 0; i < lc; i++) { auto [a, b] = loadgen_seed_range(t, i); vh::check(a == last && b >= a && b < t.m_seed_to, "seed ranges are disjoint and inside the seeded range"); last = b + 1; } } }
}
int main(int c, char** v) { return vh::main_loop(c, v, one); }
