// SOURCES: src/uhs/twophase/locking_shard/locking_shard.cpp src/uhs/twophase/locking_shard/interface.cpp
// LIBS: common serialization crypto
// FLAGS: -fno-sanitize=all -O1
// STUB: transaction::validation::check_attestations (decided by a planted flag; its own contract is checked under the attestation property)
#include "h.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"
#include "uhs/transaction/validation.hpp"
#include <map>
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace cbdc;
namespace cbdc::transaction::validation {
    auto check_attestations(const compact_tx& tx, const std::unordered_set<pubkey_t, hashing::null>&, size_t threshold) -> bool {
        return tx.m_attestations.size() >= threshold;
    }
}
namespace cbdc::transaction { auto compact_tx::operator==(const compact_tx& t) const noexcept -> bool { return m_id == t.m_id; } }
static hash_t H(unsigned first, unsigned n) { hash_t h{}; h[0] = (unsigned char)first; h[1] = (unsigned char)(n & 255); h[2] = (unsigned char)(n >> 8); return h; }
static std::string S(const hash_t& h) { char b[32]; std::snprintf(b, 32, "%02x%02x%02x", h[0], h[1], h[2]); return b; }
struct mdtx { std::vector<locking_shard::tx> txs; std::vector<bool> res; };
static auto logger = std::make_shared<logging::log>(logging::log_level::fatal, false);
static void one(vh::rng& r) {
    unsigned lo = (unsigned)r.below(4) * 20, hi = lo + 40 + (unsigned)r.below(80);
    if(r.chance(20)) { lo = 0; hi = 255; }
    config::options o; o.m_attestation_threshold = r.below(3);
    vh::logf("range", lo, hi, "threshold", o.m_attestation_threshold);
    std::vector<hash_t> pool; unsigned ctr = 1;
    std::set<hash_t> U, L, DONE; std::map<unsigned, mdtx> P; std::set<unsigned> A; std::set<unsigned> discarded;
    auto inr = [&](const hash_t& h) { return h[0] >= lo && h[0] <= hi; };
    auto fresh = [&]() { hash_t h = H(r.chance(70) ? lo + (unsigned)r.below(hi - lo + 1) : (unsigned)r.below(256), ctr++); pool.push_back(h); return h; };
    std::string pre;
    locking_shard::locking_shard sh({(uint8_t)lo, (uint8_t)hi}, logger, 4096, "", o);
    unsigned nd = 0; unsigned ops = 8 + (unsigned)r.below(60);
    bool stopped = false;
    for(unsigned k = 0; k < ops; k++) {
        unsigned w = (unsigned)r.below(10);
        if(w < 5) { // lock
            unsigned d; bool again = nd && r.chance(15);
            if(again) d = (unsigned)r.below(nd); else d = nd++;
            if(A.count(d) || discarded.count(d)) continue;
            std::vector<locking_shard::tx> txs; unsigned n = (unsigned)r.below(4);
            for(unsigned i = 0; i < n; i++) {
                locking_shard::tx t; t.m_tx.m_id = H(r.chance(60) ? lo + (unsigned)r.below(hi - lo + 1) : (unsigned)r.below(256), ctr++);
                std::set<hash_t> ins; unsigned ni = pool.empty() ? 0 : (unsigned)r.below(4);
                for(unsigned j = 0; j < ni; j++) { hash_t h = (r.chance(60) && !U.empty()) ? *std::next(U.begin(), (long)r.below(U.size())) : r.pick(pool); if(ins.insert(h).second) t.m_tx.m_inputs.push_back(h); }
                unsigned no = (unsigned)r.below(4);
                for(unsigned j = 0; j < no; j++) t.m_tx.m_uhs_outputs.push_back(fresh());
                unsigned na = r.chance(80) ? 3 : (unsigned)r.below(3);
                for(unsigned j = 0; j < na; j++) { pubkey_t p{}; p[0] = (unsigned char)j; t.m_tx.m_attestations.emplace(p, signature_t{}); }
                std::string s = "tx id=" + S(t.m_tx.m_id) + " in="; for(auto& h : t.m_tx.m_inputs) s += S(h) + ","; s += " out="; for(auto& h : t.m_tx.m_uhs_outputs) s += S(h) + ","; s += " atts=" + std::to_string(na);
                vh::log("  " + s); txs.push_back(t);
            }
            vh::logf("lock_outputs dtx", d);
            std::vector<bool> exp;
            if(P.count(d)) exp = P[d].res; else if(!stopped) {
                for(auto& t : txs) {
                    bool ok = t.m_tx.m_attestations.size() >= o.m_attestation_threshold;
                    if(ok) for(auto& h : t.m_tx.m_inputs) if(inr(h) && !U.count(h)) ok = false;
                    if(ok) for(auto& h : t.m_tx.m_inputs) if(inr(h)) { U.erase(h); L.insert(h); }
                    exp.push_back(ok);
                }
                P[d] = {txs, exp};
            }
            auto got = sh.lock_outputs(std::vector<locking_shard::tx>(txs), H(9, d));
            vh::check(got.has_value() == !stopped, "lock_outputs answers iff the shard is running");
            if(!stopped) vh::check(*got == exp, "lock_outputs: a tx is granted iff attested and all of its inputs on this shard are unspent");
        } else if(w < 8 && nd) { // apply
            unsigned d = (unsigned)r.below(nd);
            if(!P.count(d) && !A.count(d)) continue;
            std::vector<bool> c;
            if(P.count(d)) for(size_t i = 0; i < P[d].txs.size(); i++) c.push_back(P[d].res[i] && r.chance(60));
            std::string s; for(bool b : c) s += b ? '1' : '0';
            vh::logf("apply_outputs dtx", d, "flags", s);
            if(!stopped && P.count(d)) {
                auto m = P[d];
                for(size_t i = 0; i < m.txs.size(); i++) {
                    auto& t = m.txs[i].m_tx;
                    if(m.res[i]) for(auto& h : t.m_inputs) if(inr(h)) { L.erase(h); if(!c[i]) U.insert(h); }
                    if(c[i]) { for(auto& h : t.m_uhs_outputs) if(inr(h)) U.insert(h); if(inr(t.m_id)) DONE.insert(t.m_id); }
                    pool.push_back(t.m_id);
                }
                P.erase(d); A.insert(d);
            }
            bool g = sh.apply_outputs(std::move(c), H(9, d));
            vh::check(g == !stopped, "apply_outputs succeeds iff running");
        } else if(w == 8 && nd) {
            unsigned d = (unsigned)r.below(nd); vh::logf("discard_dtx", d);
            if(P.count(d) || !r.chance(40)) { /* discarding a prepared dtx must not forget it */ }
            bool g = sh.discard_dtx(H(9, d)); if(!stopped && A.count(d)) { A.erase(d); discarded.insert(d); }
            vh::check(g == !stopped, "discard_dtx succeeds iff running");
        } else if(w == 9 && r.chance(8)) { vh::log("stop"); sh.stop(); stopped = true; }
        for(auto& h : pool) {
            auto q = sh.check_unspent(h); auto t = sh.check_tx_id(h);
            vh::check(q.has_value() && *q == (U.count(h) || L.count(h)), "check_unspent(" + S(h) + ") must be " + ((U.count(h) || L.count(h)) ? "true" : "false"));
            vh::check(t.has_value() && *t == (DONE.count(h) > 0), "check_tx_id(" + S(h) + ") must be " + (DONE.count(h) ? "true" : "false"));
        }
    }
    // every unspent output can be spent exactly once, everything else cannot
    if(!stopped) for(auto& h : pool) {
        locking_shard::tx t; t.m_tx.m_id = H(1, 60000); t.m_tx.m_inputs = {h};
        for(unsigned j = 0; j < 3; j++) { pubkey_t p{}; p[0] = (unsigned char)j; t.m_tx.m_attestations.emplace(p, signature_t{}); }
        for(int rep = 0; rep < 2; rep++) {
            auto g = sh.lock_outputs({t}, H(8, nd++));
            bool e = !inr(h) || U.count(h) > 0;
            vh::check(g.has_value() && g->size() == 1 && (*g)[0] == e, "final spend of " + S(h) + (e ? " must be granted" : " must be refused"));
            if(inr(h)) U.erase(h);
        }
    }
}
int main(int argc, char** argv) { return vh::main_loop(argc, argv, one); }
