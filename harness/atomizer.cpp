// SOURCES: src/uhs/atomizer/atomizer/atomizer.cpp src/uhs/atomizer/watchtower/tx_error_messages.cpp src/uhs/transaction/transaction.cpp src/uhs/transaction/messages.cpp
// LIBS: common serialization crypto
// FLAGS: -include $H/secp_shim.hpp -lsecp256k1
#include "h.hpp"
#include "uhs/atomizer/atomizer/atomizer.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/format.hpp"
#include <map>
using namespace cbdc;
namespace wt = cbdc::watchtower;
using tx_t = transaction::compact_tx;
static hash_t H(unsigned n) { hash_t h{}; h[0] = (unsigned char)(n & 255); h[1] = (unsigned char)(n >> 8); return h; }
static unsigned N(const hash_t& h) { return h[0] + 256U * h[1]; }
struct model {
    uint64_t best; uint64_t depth;
    std::vector<std::map<unsigned, std::set<uint32_t>>> pend; std::vector<std::set<unsigned>> spent; std::vector<unsigned> complete;
};
static void one(vh::rng& r) {
    uint64_t depth = r.below(5), best = r.chance(80) ? r.below(8) : 3000000000ULL + r.below(5);
    atomizer::atomizer a(best, depth);
    model m{best, depth, {}, {}, {}}; m.pend.resize(depth + 1); m.spent.resize(depth + 1);
    vh::logf("atomizer height", best, "depth", depth);
    std::map<unsigned, tx_t> txs; unsigned pool = 3 + (unsigned)r.below(6), ntx = 2 + (unsigned)r.below(6);
    for(unsigned t = 0; t < ntx; t++) {
        tx_t tx; tx.m_id = H(1000 + t); std::set<unsigned> used; unsigned ni = (unsigned)r.below(4);
        if(ni == 0 && r.chance(70)) ni = 1;
        for(unsigned i = 0; i < ni; i++) { unsigned x = (unsigned)r.below(pool); if(used.insert(x).second) tx.m_inputs.push_back(H(x)); }
        unsigned no = (unsigned)r.below(3); for(unsigned i = 0; i < no; i++) tx.m_uhs_outputs.push_back(H(2000 + t * 4 + i));
        txs[1000 + t] = tx; std::string s = "tx " + std::to_string(1000 + t) + " inputs"; for(auto& i : tx.m_inputs) s += " " + std::to_string(N(i)); vh::log(s);
    }
    auto spent_upto = [&](const tx_t& tx, uint64_t off) { std::set<unsigned> e; for(auto& i : tx.m_inputs) for(uint64_t o = 0; o <= off && o <= depth; o++) if(m.spent[o].count(N(i))) e.insert(N(i)); return e; };
    auto expect_range = [&](const std::optional<wt::tx_error>& e, unsigned id) { vh::check(e.has_value(), "a notification from outside the window is rejected"); vh::check(N(e->tx_id()) == id && std::holds_alternative<wt::tx_error_stxo_range>(e->info()), "with a range error naming the transaction"); };
    auto expect_spent = [&](const std::optional<wt::tx_error>& e, unsigned id, const std::set<unsigned>& s) {
        vh::check(e.has_value(), "a transaction with a spent input is rejected");
        vh::check(N(e->tx_id()) == id && std::holds_alternative<wt::tx_error_inputs_spent>(e->info()), "with a spent error naming the transaction");
        std::set<unsigned> g; for(auto& h : std::get<wt::tx_error_inputs_spent>(e->info()).input_uhs_ids()) g.insert(N(h));
        vh::check(g == s, "naming exactly the spent inputs"); };
    unsigned blocks = 0, ops = 4 + (unsigned)r.below(30);
    for(unsigned n = 0; n < ops; n++) {
        unsigned op = (unsigned)r.below(100);
        unsigned id = 1000 + (unsigned)r.below(ntx); tx_t tx = txs[id];
        uint64_t bh; unsigned k = (unsigned)r.below(10);
        if(k < 7) bh = m.best - std::min<uint64_t>(m.best, r.below(depth + 1)); else if(k == 7) bh = m.best + 1 + r.below(3); else if(k == 8) bh = m.best - std::min<uint64_t>(m.best, depth + 1 + r.below(2)); else bh = r.chance(50) ? UINT64_MAX / 2 - r.below(2) : 0;
        bool in_window = bh <= m.best && m.best - bh <= depth; uint64_t off = in_window ? m.best - bh : depth;
        bool late = !in_window && !tx.m_inputs.empty();
        if(op < 40) {
            vh::logf("insert_complete", bh, id); auto e = a.insert_complete(bh, std::move(tx)); tx = txs[id];
            if(late) expect_range(e, id);
            else { auto s = spent_upto(tx, off); if(!s.empty()) expect_spent(e, id, s); else { vh::check(!e.has_value(), "an unspent transaction inside the window is accepted"); for(auto& i : tx.m_inputs) m.spent[0].insert(N(i)); m.complete.push_back(id); } }
        } else if(op < 75) {
            std::unordered_set<uint32_t> att; std::string as; for(uint32_t i = 0; i < tx.m_inputs.size(); i++) if(r.chance(50)) { att.insert(i); as += std::to_string(i) + ","; }
            vh::logf("insert", bh, id, "attests", as); auto e = a.insert(bh, tx, att);
            if(late) expect_range(e, id);
            else {
                auto& p = m.pend[off][id]; p.insert(att.begin(), att.end());
                std::set<uint32_t> all; uint64_t old = 0; for(uint64_t o = 0; o <= depth; o++) { auto it = m.pend[o].find(id); if(it != m.pend[o].end()) { all.insert(it->second.begin(), it->second.end()); old = o; } }
                if(all.size() == tx.m_inputs.size()) {
                    auto s = spent_upto(tx, old);
                    if(!s.empty()) expect_spent(e, id, s);
                    else { vh::check(!e.has_value(), "a fully attested, unspent transaction is accepted"); for(auto& i : tx.m_inputs) m.spent[0].insert(N(i)); m.complete.push_back(id); for(auto& q : m.pend) q.erase(id); }
                } else vh::check(!e.has_value(), "an incomplete notification is no error");
            }
        } else if(op < 95 && blocks++ < 6) {
            vh::log("make_block"); auto [blk, errs] = a.make_block();
            vh::check(blk.m_height == m.best + 1, "the block is at the next height"); vh::check(blk.m_transactions.size() == m.complete.size(), "the block holds the accepted transactions");
            for(size_t i = 0; i < m.complete.size(); i++) { auto& g = blk.m_transactions[i]; auto& w = txs[m.complete[i]]; vh::check(N(g.m_id) == m.complete[i] && g.m_inputs == w.m_inputs && g.m_uhs_outputs == w.m_uhs_outputs, "in the order accepted, unchanged"); }
            std::multiset<unsigned> ge, we; for(auto& e : errs) { vh::check(std::holds_alternative<wt::tx_error_incomplete>(e.info()), "expiry is an incomplete error"); ge.insert(N(e.tx_id())); }
            for(auto& p : m.pend[depth]) we.insert(p.first);
            vh::check(ge == we, "one error for each notification that expires");
            m.best++; m.complete.clear(); m.spent.insert(m.spent.begin(), {{}}); m.spent.pop_back(); m.pend.insert(m.pend.begin(), {{}}); m.pend.pop_back();
        } else {
            vh::log("serialize/deserialize"); auto buf = a.serialize(); atomizer::atomizer b(0, 0); auto d = buffer_serializer(buf); b.deserialize(d); vh::check(a == b, "a deserialized atomizer equals the original"); vh::check(b.height() == m.best, "with its height");
        }
        vh::check(a.height() == m.best, "height"); vh::check(a.pending_transactions() == m.complete.size(), "number of accepted transactions");
    }
}
int main(int c, char** v) { return vh::main_loop(c, v, one); }
