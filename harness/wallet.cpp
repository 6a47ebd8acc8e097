// SOURCES: src/uhs/transaction/wallet.cpp src/uhs/transaction/validation.cpp src/uhs/transaction/transaction.cpp src/uhs/transaction/messages.cpp
// LIBS: common serialization crypto
// FLAGS: -include chrono -include $H/secp_shim.hpp -lsecp256k1
#include "h.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/transaction.hpp"
#include "uhs/transaction/validation.hpp"
#include "uhs/transaction/wallet.hpp"
#include "util/common/keys.hpp"
#include "util/serialization/util.hpp"
#include <algorithm>
#include <map>
#include <optional>
#include <unistd.h>
using namespace cbdc;
using namespace cbdc::transaction;
namespace v = cbdc::transaction::validation;
using u128 = unsigned __int128;
using point = std::pair<hash_t, uint64_t>;
static secp256k1_context* ctx() { static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY); return c; }
static hash_t H(unsigned n) { hash_t h{}; h[0] = (unsigned char)n; h[5] = (unsigned char)(n >> 8); return h; }
static point pt(const input& i) { return {i.m_prevout.m_tx_id, i.m_prevout.m_index}; }
static privkey_t sk(unsigned n) { privkey_t s{}; s[31] = (unsigned char)n; s[30] = (unsigned char)(n >> 8); s[3] = 7; return s; }

struct model {
    std::map<point, output> held;
    std::set<hash_t> mine;    // witness commitments of the wallet's keys
    size_t from{0}, to{0}; uint64_t sv{0}; hash_t sc{};
    std::set<point> seeds;    // outputs of the seeded transactions not spent yet
    auto total() const -> u128 { u128 t = (u128)(to - from) * sv; for(auto& [p, o] : held) t += o.m_value; return t; }
};

static std::map<point, output> seed_outs(model& m) {
    // the outputs which the seeded transactions, as specified, make
    std::map<point, output> r;
    for(size_t i = m.from; i < m.to; i++) {
        full_tx tx; tx.m_inputs.resize(1); tx.m_outputs.resize(1);
        tx.m_inputs[0].m_prevout.m_tx_id = {0}; tx.m_inputs[0].m_prevout.m_index = i; tx.m_inputs[0].m_prevout_data.m_value = m.sv; tx.m_inputs[0].m_prevout_data.m_witness_program_commitment = {0};
        tx.m_outputs[0].m_value = m.sv; tx.m_outputs[0].m_witness_program_commitment = m.sc;
        r[{tx_id(tx), 0}] = tx.m_outputs[0];
    }
    return r;
}
static void agree(wallet& w, model& m, const std::string& after) {
    vh::check(w.balance() == (uint64_t)m.total(), "balance is the sum of the outputs held, after " + after);
    vh::check(w.count() == m.held.size() + (m.to - m.from), "count is the number of outputs held, after " + after);
}
// checks the inputs of a built transaction and takes them out of the model
static void taken(wallet& w, model& m, const full_tx& tx, const std::string& what) {
    auto seeds = seed_outs(m); std::set<point> seen; size_t used = 0;
    for(auto& in : tx.m_inputs) {
        vh::check(seen.insert(pt(in)).second, what + " spends an output once");
        auto h = m.held.find(pt(in)); auto s = seeds.find(pt(in));
        vh::check(h != m.held.end() || s != seeds.end(), what + " spends outputs the wallet holds");
        if(h != m.held.end()) { vh::check(in.m_prevout_data == h->second, what + " names the output as it is"); m.held.erase(h); }
        else { vh::check(in.m_prevout_data == s->second, what + " names the seeded output as it is"); used++; }
    }
    // seeds are spent in order
    size_t want = m.from + used;
    for(size_t i = 0; i < used; i++) { model one = m; one.from = m.from + i; one.to = one.from + 1; vh::check(seen.count(seed_outs(one).begin()->first) == 1, what + " spends seeded outputs in order"); }
    m.from = want;
}
static u128 in_sum(const full_tx& tx) { u128 t = 0; for(auto& i : tx.m_inputs) t += i.m_prevout_data.m_value; return t; }
static u128 out_sum(const full_tx& tx) { u128 t = 0; for(auto& o : tx.m_outputs) t += o.m_value; return t; }
static void credit(model& m, const input& in) { m.held.emplace(pt(in), in.m_prevout_data); }
static void confirmed(model& m, const full_tx& tx) {
    auto id = tx_id(tx);
    for(size_t i = 0; i < tx.m_outputs.size(); i++) if(m.mine.count(tx.m_outputs[i].m_witness_program_commitment)) m.held.emplace(point{id, i}, tx.m_outputs[i]);
    for(auto& in : tx.m_inputs) m.held.erase(pt(in));
}
static void signed_ok(wallet& w, const full_tx& tx, bool sign, const std::string& what) {
    if(!sign) return;
    for(auto& in : tx.m_inputs) if(!w.is_spendable(in)) return;
    if(tx.m_inputs.empty()) return;
    for(auto& o : tx.m_outputs) if(o.m_value == 0) return;
    for(auto& in : tx.m_inputs) if(in.m_prevout_data.m_value == 0) return;
    vh::check(!v::check_tx(tx).has_value(), what + ": the signed transaction is valid");
}

static void one(vh::rng& r) {
    wallet w; model m;
    std::vector<full_tx> done;    // transactions which may be confirmed (again)
    std::vector<pubkey_t> own; pubkey_t other = pubkey_from_privkey(sk(900 + (unsigned)r.below(9)), ctx());
    auto key = [&]() -> pubkey_t { auto k = w.generate_key(); own.push_back(k); m.mine.insert(v::get_p2pk_witness_commitment(k)); return k; };
    auto val = [&]() -> uint64_t { switch(r.below(8)) { case 0: return 1; case 1: return 0xffffffffULL + r.below(3); case 2: return 0x100000000ULL * (1 + r.below(5)); default: return 1 + r.below(40); } };
    if(r.chance(35)) {
        size_t b = r.below(5), e = b + r.below(6) + (r.chance(80) ? 1 : 0); uint32_t sv = r.chance(20) ? 0xffffffffU - (uint32_t)r.below(2) : 1 + (uint32_t)r.below(30);
        auto pk = pubkey_from_privkey(sk(77), ctx()); auto wc = v::get_p2pk_witness_commitment(pk);
        bool ok = true;
        if(r.chance(70)) { ok = w.seed(sk(77), sv, b, e); vh::check(ok == (e > b), "seed accepts a range which is not empty"); if(ok) m.mine.insert(wc); }
        else { if(e < b) e = b; w.seed_readonly(wc, sv, b, e); }
        if(ok) { m.from = b; m.to = e; m.sv = sv; m.sc = wc; }
        vh::logf("seed", b, e, sv, ok);
        agree(w, m, "seed");
    }
    key();
    unsigned ext = 0; size_t steps = 3 + r.below(14);
    std::string file; model saved; bool have_file = false;
    for(size_t s = 0; s < steps; s++) {
        bool sign = r.chance(20);
        auto pay_to = [&]() -> pubkey_t { return r.chance(35) ? (r.chance(50) ? own[r.below(own.size())] : key()) : other; };
        auto finish = [&](full_tx& tx, const std::string& what) {
            vh::check(in_sum(tx) == out_sum(tx), what + ": inputs and outputs have the same total");
            signed_ok(w, tx, sign, what);
            if(r.chance(60)) { w.confirm_transaction(tx); confirmed(m, tx); vh::logf("  confirmed"); }
            else done.push_back(tx);
        };
        switch(r.below(9)) {
            case 0: {
                size_t n = r.below(5); auto x = (uint32_t)val();
                auto tx = w.mint_new_coins(n, x); vh::logf("mint", n, x);
                vh::check(tx.m_inputs.empty() && tx.m_outputs.size() == n, "minting makes the outputs asked for");
                for(auto& o : tx.m_outputs) { vh::check(o.m_value == x, "minted outputs have the value asked for"); input in; in.m_prevout_data = o; vh::check(w.is_spendable(in), "minted outputs belong to the wallet"); m.mine.insert(o.m_witness_program_commitment); }
                w.confirm_transaction(tx); confirmed(m, tx); done.push_back(tx); break;
            }
            case 1: case 2: {
                uint32_t amt = r.chance(15) ? (uint32_t)val() : (uint32_t)r.below(60); auto p = pay_to(); auto pc = v::get_p2pk_witness_commitment(p); auto tot = m.total(); if(r.chance(15) && tot <= UINT32_MAX) amt = (uint32_t)tot + (uint32_t)r.below(2);
                vh::logf("send", amt, "of", (uint64_t)tot);
                auto tx = w.send_to(amt, p, sign);
                vh::check(tx.has_value() == (tot >= amt), "a payment is refused only for lack of funds");
                if(!tx) break;
                taken(w, m, *tx, "a payment");
                size_t paid = 0; u128 back = 0;
                for(size_t i = 0; i < tx->m_outputs.size(); i++) { auto& o = tx->m_outputs[i]; if(o.m_witness_program_commitment == pc && o.m_value == amt && !paid) { paid++; continue; } input in; in.m_prevout_data = o; vh::check(w.is_spendable(in), "change returns to the wallet"); m.mine.insert(o.m_witness_program_commitment); back += o.m_value; }
                vh::check(paid == 1, "the payee gets the amount asked for");
                finish(*tx, "a payment"); break;
            }
            case 3: {
                size_t n = r.below(6); uint32_t x = r.chance(15) ? (uint32_t)val() : (uint32_t)r.below(20); auto p = pay_to(); auto pc = v::get_p2pk_witness_commitment(p); auto tot = m.total(); u128 amt = (u128)n * x;
                vh::logf("fan", n, x, "of", (uint64_t)tot);
                auto tx = w.fan(n, x, p, sign);
                vh::check(tx.has_value() == (tot >= amt), "a fan is refused only for lack of funds");
                if(!tx) break;
                taken(w, m, *tx, "a fan");
                size_t paid = 0; u128 back = in_sum(*tx) - amt;
                for(auto& o : tx->m_outputs) { if(o.m_witness_program_commitment == pc && o.m_value == x && paid < n) { paid++; continue; } input in; in.m_prevout_data = o; vh::check(w.is_spendable(in), "change returns to the wallet"); vh::check(o.m_value == back, "change is the difference"); m.mine.insert(o.m_witness_program_commitment); }
                vh::check(paid == n, "the payee gets every output asked for");
                finish(*tx, "a fan"); break;
            }
            case 4: {
                size_t ni = 1 + r.below(6), no = 1 + r.below(6); auto p = pay_to(); auto pc = v::get_p2pk_witness_commitment(p); size_t have = m.held.size() + (m.to - m.from);
                vh::logf("send_counts", ni, no, "of", have);
                auto before = m;
                auto tx = w.send_to(ni, no, p, sign);
                vh::check(!tx.has_value() || have >= ni, "more inputs than the wallet holds are refused");
                std::vector<uint64_t> worth; for(auto& [q, o] : m.held) worth.push_back(o.m_value);
                for(size_t i = m.from; i < m.to; i++) worth.push_back(m.sv);
                std::sort(worth.begin(), worth.end()); u128 least = 0; for(size_t i = 0; i < ni && i < worth.size(); i++) least += worth[i];
                vh::check(tx.has_value() || have < ni || (no > 1 && least < no), "inputs which are held may be spent");
                if(!tx) break;
                taken(w, m, *tx, "a transaction");
                vh::check(tx->m_inputs.size() == ni && tx->m_outputs.size() == no, "it has the inputs and outputs asked for");
                for(auto& o : tx->m_outputs) vh::check(o.m_witness_program_commitment == pc, "all outputs go to the payee");
                finish(*tx, "a transaction"); break;
            }
            case 5: {   // another party pays us (and maybe itself)
                full_tx tx; tx.m_inputs.resize(1); tx.m_inputs[0].m_prevout.m_tx_id = H(5000 + ++ext); tx.m_inputs[0].m_prevout.m_index = r.below(3);
                size_t n = 1 + r.below(4); uint64_t t = 0;
                for(size_t i = 0; i < n; i++) { auto x = val(); t += x; tx.m_outputs.push_back({v::get_p2pk_witness_commitment(r.chance(70) ? (own.empty() ? key() : own[r.below(own.size())]) : other), x}); }
                tx.m_inputs[0].m_prevout_data.m_value = t;
                vh::logf("received", n);
                if(r.chance(70)) { w.confirm_transaction(tx); confirmed(m, tx); }
                else { std::vector<input> c; for(size_t i = 0; i < n; i++) if(m.mine.count(tx.m_outputs[i].m_witness_program_commitment)) c.push_back(*input_from_output(tx, i)); if(r.chance(30) && !c.empty()) c.push_back(c[0]); w.confirm_inputs(c); for(auto& i : c) credit(m, i); }
                break;
            }
            case 6: {   // another copy of the wallet spent some of our outputs
                full_tx tx; for(auto& [p, o] : m.held) if(r.chance(30)) { input in; in.m_prevout = out_point(p.first, p.second); in.m_prevout_data = o; tx.m_inputs.push_back(in); }
                if(tx.m_inputs.empty()) break;
                if(r.chance(30)) tx.m_inputs.push_back(tx.m_inputs[0]);
                tx.m_outputs.push_back({v::get_p2pk_witness_commitment(r.chance(50) ? own[r.below(own.size())] : other), 1 + r.below(20)});
                vh::logf("spent elsewhere", tx.m_inputs.size());
                w.confirm_transaction(tx); confirmed(m, tx); break;
            }
            case 7: {
                if(done.empty()) break;
                auto& tx = done[r.below(done.size())]; vh::logf("confirm late or again");
                w.confirm_transaction(tx); confirmed(m, tx); break;
            }
            default: {
                if(!have_file) {
                    char t[] = "/tmp/verif_wallet_XXXXXX"; int fd = mkstemp(t); if(fd < 0) break; close(fd); file = t; have_file = true;
                    w.save(file); saved = m; vh::logf("saved");
                } else {
                    vh::logf("loaded"); w.load(file); m.held = saved.held; m.mine = saved.mine; std::vector<pubkey_t> k; for(auto& p : own) if(m.mine.count(v::get_p2pk_witness_commitment(p))) k.push_back(p); own = k; if(own.empty()) key();
                    std::remove(file.c_str()); have_file = false;
                }
            }
        }
        agree(w, m, "step " + std::to_string(s));
    }
    if(have_file) std::remove(file.c_str());
    auto all = m.total();
    if(all > 0 && all <= UINT32_MAX) {
        auto tx = w.send_to((uint32_t)all, other, true);
        vh::check(tx.has_value(), "everything held can be spent"); taken(w, m, *tx, "the last payment"); vh::check(in_sum(*tx) == all && out_sum(*tx) == all, "the last payment pays everything"); agree(w, m, "spending everything");
        vh::check(!w.send_to(1, other, false).has_value(), "nothing is left");
    }
}
int main(int c, char** a) { return vh::main_loop(c, a, one); }
