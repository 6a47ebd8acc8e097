// SOURCES: src/uhs/atomizer/watchtower/block_cache.cpp src/uhs/atomizer/watchtower/error_cache.cpp src/uhs/atomizer/watchtower/tx_error_messages.cpp
// LIBS: common serialization crypto
#include "h.hpp"
#include "uhs/atomizer/watchtower/block_cache.hpp"
#include "uhs/atomizer/watchtower/error_cache.hpp"
#include "util/common/cache_set.hpp"
#include "util/common/hash.hpp"
#include <deque>
#include <map>
using namespace cbdc;
namespace wt = cbdc::watchtower;
static hash_t H(unsigned n) { hash_t h{}; h[0] = (unsigned char)(n & 255); h[1] = (unsigned char)(n >> 8); return h; }
static std::string S(const hash_t& h) { return std::to_string(h[0] + 256U * h[1]); }
static void sets(vh::rng& r) {
    size_t k = r.below(5); cache_set<hash_t, hashing::null> c(k); std::deque<unsigned> q;
    vh::logf("cache_set of", k); unsigned range = 1 + (unsigned)r.below(8), ops = (unsigned)r.below(40);
    for(unsigned i = 0; i < ops; i++) {
        unsigned x = (unsigned)r.below(range); bool in = false; for(auto y : q) in |= y == x;
        vh::logf("add", x); bool ret = c.add(H(x));
        vh::check(ret == !in, "cache_set::add reports whether the value is new");
        if(!in) { q.push_back(x); if(q.size() > k) q.pop_front(); }
        for(unsigned y = 0; y < range; y++) { bool e = false; for(auto z : q) e |= z == y; vh::check(c.contains(H(y)) == e, "cache_set holds exactly the last " + std::to_string(k) + " values: " + std::to_string(y)); }
    }
}
static void blocks(vh::rng& r) {
    size_t k = r.below(5);
    wt::block_cache c(k); std::deque<atomizer::block> q; unsigned ctr = 1; uint64_t best = 0, height = r.below(3);
    std::vector<hash_t> all; std::vector<hash_t> spendable;
    vh::logf("block_cache of", k); unsigned ops = 2 + (unsigned)r.below(20);
    for(unsigned n = 0; n < ops; n++) {
        atomizer::block b; b.m_height = r.chance(85) ? ++height : r.below(height + 3); height = std::max(height, b.m_height);
        std::vector<hash_t> made; unsigned nt = (unsigned)r.below(4);
        std::string s = "push_block height=" + std::to_string(b.m_height);
        for(unsigned t = 0; t < nt; t++) {
            transaction::compact_tx tx; tx.m_id = H(ctr++); s += " tx" + S(tx.m_id) + "(in=";
            unsigned ni = (unsigned)r.below(4);
            for(unsigned i = 0; i < ni; i++) {
                hash_t h; if(!spendable.empty() && r.chance(75)) { size_t j = r.below(spendable.size()); h = spendable[j]; spendable.erase(spendable.begin() + (long)j); } else { h = H(ctr++); all.push_back(h); }
                tx.m_inputs.push_back(h); s += S(h) + ",";
            }
            s += " out="; unsigned no = (unsigned)r.below(4);
            for(unsigned i = 0; i < no; i++) { hash_t h = H(ctr++); all.push_back(h); made.push_back(h); tx.m_uhs_outputs.push_back(h); s += S(h) + ","; }
            s += ")"; b.m_transactions.push_back(tx);
        }
        vh::log(s);
        for(auto& h : made) spendable.push_back(h);
        best = std::max(best, b.m_height); q.push_back(b); if(k != 0 && q.size() > k) q.pop_front();
        c.push_block(std::move(b));
        std::map<hash_t, wt::block_cache_result> U, P;
        for(auto& bb : q) for(auto& tx : bb.m_transactions) { for(auto& i : tx.m_inputs) { U.erase(i); P[i] = {bb.m_height, tx.m_id}; } for(auto& o : tx.m_uhs_outputs) U[o] = {bb.m_height, tx.m_id}; }
        vh::check(c.best_block_height() == best, "best_block_height is the highest height pushed");
        for(auto& h : all) {
            auto u = c.check_unspent(h), p = c.check_spent(h);
            vh::check(u.has_value() == (U.count(h) == 1) && (!u || *u == U[h]), "check_unspent answers from the retained blocks for " + S(h));
            vh::check(p.has_value() == (P.count(h) == 1) && (!p || *p == P[h]), "check_spent answers from the retained blocks for " + S(h));
        }
    }
}
static void errors(vh::rng& r) {
    size_t k = r.below(5); wt::error_cache c(k); std::deque<wt::tx_error> q; unsigned range = 2 + (unsigned)r.below(8);
    vh::logf("error_cache of", k); unsigned ops = (unsigned)r.below(14);
    for(unsigned n = 0; n < ops; n++) {
        std::vector<wt::tx_error> es; unsigned ne = (unsigned)r.below(4); std::string s = "push_errors";
        for(unsigned i = 0; i < ne; i++) {
            auto id = H(100 + (unsigned)r.below(range)); auto kind = r.below(5); std::vector<hash_t> l; unsigned m = (unsigned)r.below(4);
            for(unsigned j = 0; j < m; j++) l.push_back(H((unsigned)r.below(range)));
            s += " " + S(id) + ":" + std::to_string(kind); if(kind >= 3) { s += "["; for(auto& h : l) s += S(h) + ","; s += "]"; }
            if(kind == 0) es.emplace_back(id, wt::tx_error_sync{});
            else if(kind == 1) es.emplace_back(id, wt::tx_error_stxo_range{});
            else if(kind == 2) es.emplace_back(id, wt::tx_error_incomplete{});
            else if(kind == 3) es.emplace_back(id, wt::tx_error_inputs_dne{l});
            else es.emplace_back(id, wt::tx_error_inputs_spent{std::unordered_set<hash_t, hashing::null>(l.begin(), l.end())});
        }
        vh::log(s);
        for(auto& e : es) { q.push_back(e); if(k != 0 && q.size() > k) q.pop_front(); }
        c.push_errors(std::move(es));
        for(unsigned x = 0; x < range; x++) {
            std::optional<wt::tx_error> bt, bu;
            for(auto& e : q) {
                if(e.tx_id() == H(100 + x)) bt = e;
                auto info = e.info(); bool con = false;
                if(auto* d = std::get_if<wt::tx_error_inputs_dne>(&info)) for(auto& h : d->input_uhs_ids()) con |= h == H(x);
                if(auto* d = std::get_if<wt::tx_error_inputs_spent>(&info)) con |= d->input_uhs_ids().count(H(x)) == 1;
                if(con) bu = e;
            }
            auto gt = c.check_tx_id(H(100 + x)), gu = c.check_uhs_id(H(x));
            vh::check(gt.has_value() == bt.has_value() && (!gt || *gt == *bt), "check_tx_id gives the newest retained error of transaction " + std::to_string(100 + x));
            vh::check(gu.has_value() == bu.has_value() && (!gu || *gu == *bu), "check_uhs_id gives the newest retained error about output " + std::to_string(x));
        }
    }
}
int main(int argc, char** argv) {
    return vh::main_loop(argc, argv, [](vh::rng& r) { auto k = r.below(20); if(k < 2) blocks(r); else if(k < 8) sets(r); else errors(r); });
}
