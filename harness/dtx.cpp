// SOURCES: src/uhs/twophase/coordinator/distributed_tx.cpp src/uhs/twophase/locking_shard/interface.cpp src/uhs/transaction/transaction.cpp src/uhs/transaction/messages.cpp
// LIBS: common serialization crypto
// FLAGS: -include $H/secp_shim.hpp -iquote $H/../dv/stubs -I$H/../dv/stubs -lsecp256k1
#include "h.hpp"
#include "uhs/twophase/coordinator/distributed_tx.hpp"
#include <map>
#include <mutex>
using namespace cbdc;
namespace co = cbdc::coordinator;
namespace ls = cbdc::locking_shard;
using tx_t = transaction::compact_tx;
static hash_t H(unsigned b, unsigned n) { hash_t h{}; h[0] = (unsigned char)b; h[1] = (unsigned char)(n & 255); h[2] = (unsigned char)(n >> 8); return h; }
struct event { char kind; size_t shard; };
static std::mutex g_mut;
static std::vector<event> g_ev;
static void ev(char k, size_t s) { std::unique_lock<std::mutex> l(g_mut); g_ev.push_back({k, s}); }
struct mock : ls::interface {
    mock(size_t i, std::pair<uint8_t, uint8_t> r) : interface(r), m_i(i) {}
    size_t m_i;
    int lock_mode{0}; std::vector<bool> lock_ans; bool apply_ans{true}, disc_ans{true};
    std::vector<ls::tx> got; std::vector<bool> applied; hash_t id_l{}, id_a{}, id_d{};
    auto lock_outputs(std::vector<ls::tx>&& t, const hash_t& d) -> std::optional<std::vector<bool>> override {
        ev('L', m_i); got = std::move(t); id_l = d; if(lock_mode == 1) return std::nullopt; auto a = lock_ans; a.resize(got.size(), true); return a; }
    auto apply_outputs(std::vector<bool>&& c, const hash_t& d) -> bool override { ev('A', m_i); applied = c; id_a = d; return apply_ans; }
    auto discard_dtx(const hash_t& d) -> bool override { ev('D', m_i); id_d = d; return disc_ans; }
    void stop() override {}
};
static void one(vh::rng& r) {
    static auto logger = std::make_shared<logging::log>(logging::log_level::fatal);
    g_ev.clear();
    size_t ns = 1 + r.below(5); std::vector<std::pair<uint8_t, uint8_t>> ranges; std::vector<std::shared_ptr<ls::interface>> sh; std::vector<std::shared_ptr<mock>> ms;
    unsigned step = 256 / (unsigned)ns;
    for(size_t i = 0; i < ns; i++) { ranges.push_back({(uint8_t)(i * step), (uint8_t)(i + 1 == ns ? 255 : (i + 1) * step - 1)}); auto m = std::make_shared<mock>(i, ranges[i]); ms.push_back(m); sh.push_back(m); }
    if(ns > 1 && r.chance(25)) { ranges[0].second = (uint8_t)(ranges[0].second + r.below(4)); auto m = std::make_shared<mock>(0, ranges[0]); ms[0] = m; sh[0] = m; }   // overlapping (replicated) ranges
    auto rh = [&](unsigned n) { unsigned b; unsigned k = (unsigned)r.below(3); if(k == 0) b = (unsigned)r.below(256); else { auto& g = ranges[r.below(ns)]; b = k == 1 ? g.first : g.second; } return H(b, n); };
    size_t nt = r.below(100) < 8 ? 0 : 1 + r.below(6); std::vector<tx_t> txs;
    for(size_t t = 0; t < nt; t++) { tx_t x; x.m_id = rh((unsigned)(t * 64)); size_t a = r.below(4), b = r.below(4); for(size_t i = 0; i < a; i++) x.m_inputs.push_back(rh((unsigned)(t * 64 + 1 + i))); for(size_t i = 0; i < b; i++) x.m_uhs_outputs.push_back(rh((unsigned)(t * 64 + 20 + i))); txs.push_back(x); }
    auto owns = [&](size_t s, const hash_t& h) { return ranges[s].first <= h[0] && h[0] <= ranges[s].second; };
    std::vector<std::vector<uint64_t>> idx(ns);
    for(size_t s = 0; s < ns; s++) for(size_t t = 0; t < nt; t++) { bool c = owns(s, txs[t].m_id); for(auto& h : txs[t].m_inputs) c = c || owns(s, h); for(auto& h : txs[t].m_uhs_outputs) c = c || owns(s, h); if(c) idx[s].push_back(t); }
    std::vector<bool> decision(nt, true);
    unsigned start = (unsigned)r.below(10); start = start < 5 ? 0 : start - 5;      // 0 add_tx, 1 recover_prepare, 2 commit, 3 discard, 4 add_tx
    for(size_t s = 0; s < ns; s++) { for(size_t k = 0; k < idx[s].size(); k++) { bool a = r.chance(75); ms[s]->lock_ans.push_back(a); if(!a && start != 2) decision[idx[s][k]] = false; } if(r.chance(8)) ms[s]->lock_mode = 1; if(r.chance(8)) ms[s]->apply_ans = false; if(r.chance(8)) ms[s]->disc_ans = false; }
    if(start == 2) for(size_t t = 0; t < nt; t++) decision[t] = r.chance(50);
    int fail_cb = r.chance(25) ? (int)r.below(4) : -1; unsigned have = r.chance(70) ? 15U : (unsigned)r.below(16);
    hash_t id = H(200, 7777);
    co::distributed_tx d(id, sh, logger);
    vh::logf("shards", ns, "txs", nt, "start", start, "failing callback", fail_cb, "callbacks", have);
    for(size_t s = 0; s < ns; s++) { std::string l = "shard " + std::to_string(s) + " [" + std::to_string(ranges[s].first) + "," + std::to_string(ranges[s].second) + "] txs"; for(size_t k = 0; k < idx[s].size(); k++) l += " " + std::to_string(idx[s][k]) + (ms[s]->lock_ans[k] ? "+" : "-"); if(ms[s]->lock_mode) l += " lock fails"; if(!ms[s]->apply_ans) l += " apply fails"; if(!ms[s]->disc_ans) l += " discard fails"; vh::log(l); }
    std::vector<tx_t> cb_txs; std::vector<bool> cb_dec; std::vector<std::vector<uint64_t>> cb_idx; hash_t cid[4]; for(auto& c : cid) c = id;
    if(have & 1U) d.set_prepare_cb([&](const hash_t& h, const std::vector<tx_t>& t) { ev('p', 0); cid[0] = h; cb_txs = t; return fail_cb != 0; });
    if(have & 2U) d.set_commit_cb([&](const hash_t& h, const std::vector<bool>& c, const std::vector<std::vector<uint64_t>>& i) { ev('c', 0); cid[1] = h; cb_dec = c; cb_idx = i; return fail_cb != 1; });
    if(have & 4U) d.set_discard_cb([&](const hash_t& h) { ev('d', 0); cid[2] = h; return fail_cb != 2; });
    if(have & 8U) d.set_done_cb([&](const hash_t& h) { ev('n', 0); cid[3] = h; return fail_cb != 3; });
    auto state0 = co::distributed_tx::dtx_state::start;
    if(start == 0 || start == 4) for(size_t t = 0; t < nt; t++) vh::check(d.add_tx(txs[t]) == t, "add_tx returns the index in the batch");
    else if(start == 1) { d.recover_prepare(txs); state0 = co::distributed_tx::dtx_state::prepare; }
    else if(start == 2) { d.recover_commit(decision, idx); state0 = co::distributed_tx::dtx_state::commit; }
    else { d.recover_discard(); state0 = co::distributed_tx::dtx_state::discard; }
    vh::check(d.get_state() == state0, "the state reflects what was recovered"); vh::check(d.get_id() == id, "the id is kept");
    if(start != 3) vh::check(d.size() == nt, "size is the number of transactions");
    auto res = d.execute();
    std::string es; for(auto& e : g_ev) { es += e.kind; if(e.kind < 'a') es += std::to_string(e.shard); } vh::log("events " + es + (res ? " result" : " failed"));
    // expected behaviour, phase by phase
    size_t pos = 0; bool failed = false;
    auto part = [&](size_t s) { return start == 3 || !idx[s].empty(); };
    auto cb = [&](char k, unsigned bit, int n) { if(failed || !(have & bit)) return; vh::check(pos < g_ev.size() && g_ev[pos].kind == k, std::string("the phase is announced before it is acted on (") + k + ")"); pos++; if(fail_cb == n) failed = true; };
    auto calls = [&](char k) { if(failed) return; std::multiset<size_t> want, got; for(size_t s = 0; s < ns; s++) if(part(s)) want.insert(s); for(size_t n = 0; n < want.size(); n++) { vh::check(pos < g_ev.size() && g_ev[pos].kind == k, std::string("every shard concerned takes each step once, before the next step (") + k + ")"); got.insert(g_ev[pos++].shard); } vh::check(got == want, std::string("exactly the shards concerned take each step (") + k + ")"); };
    if(start == 0 || start == 1 || start == 4) {
        cb('p', 1, 0); if(have & 1U) { vh::check(cb_txs.size() == nt && cid[0] == id, "the announced batch is complete"); for(size_t t = 0; t < nt; t++) vh::check(cb_txs[t].m_id == txs[t].m_id && cb_txs[t].m_inputs == txs[t].m_inputs && cb_txs[t].m_uhs_outputs == txs[t].m_uhs_outputs, "the announced batch is the batch"); }
        calls('L');
        if(!failed) for(size_t s = 0; s < ns; s++) if(!idx[s].empty()) {
            vh::check(ms[s]->id_l == id && ms[s]->got.size() == idx[s].size(), "a shard receives the transactions that concern it");
            for(size_t k = 0; k < idx[s].size(); k++) vh::check(ms[s]->got[k].m_tx.m_id == txs[idx[s][k]].m_id && ms[s]->got[k].m_tx.m_inputs == txs[idx[s][k]].m_inputs && ms[s]->got[k].m_tx.m_uhs_outputs == txs[idx[s][k]].m_uhs_outputs, "a shard receives exactly the transactions that concern it");
            if(ms[s]->lock_mode == 1) failed = true; }
    }
    if(start != 3) {
        cb('c', 2, 1); if(pos > 0 && (have & 2U) && g_ev[pos - 1].kind == 'c') { vh::check(cb_dec == decision && cid[1] == id, "the announced decision is the conjunction of the shards' answers"); vh::check(cb_idx == idx, "the announced routing is the one used"); }
        calls('A');
        if(!failed) for(size_t s = 0; s < ns; s++) if(!idx[s].empty()) {
            vh::check(ms[s]->id_a == id && ms[s]->applied.size() == idx[s].size(), "a shard is told a decision per transaction");
            for(size_t k = 0; k < idx[s].size(); k++) vh::check(ms[s]->applied[k] == decision[idx[s][k]], "every shard concerned is told the same decision");
            if(!ms[s]->apply_ans) failed = true; }
    }
    cb('d', 4, 2); calls('D');
    if(!failed) for(size_t s = 0; s < ns; s++) if(part(s)) { vh::check(ms[s]->id_d == id, "discards this transaction"); if(!ms[s]->disc_ans) failed = true; }
    cb('n', 8, 3); if(!failed && (have & 12U) == 12U) vh::check(cid[2] == id && cid[3] == id, "announced for this id");
    vh::check(pos == g_ev.size(), "no step is taken after a failure, or twice");
    vh::check(res.has_value() == !failed, failed ? "a failed execution reports failure" : "a completed execution reports its result");
    if(!failed && start != 3) vh::check(*res == decision, "the result is the decision the shards were told");
    vh::check(d.get_state() == (failed ? co::distributed_tx::dtx_state::failed : co::distributed_tx::dtx_state::done), "the final state tells success from failure");
    if(failed && r.chance(50)) { auto again = d.execute(); vh::check(!again.has_value() && pos == g_ev.size(), "a failed execution stays failed"); }
}
int main(int argc, char** argv) { return vh::main_loop(argc, argv, one); }
