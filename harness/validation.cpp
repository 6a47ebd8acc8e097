// SOURCES: src/uhs/transaction/validation.cpp src/uhs/transaction/transaction.cpp src/uhs/transaction/messages.cpp
// LIBS: common serialization crypto
// FLAGS: -include $H/secp_shim.hpp -lsecp256k1
#include "h.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/transaction.hpp"
#include "uhs/transaction/validation.hpp"
#include "util/common/keys.hpp"
#include "util/serialization/util.hpp"
#include <map>
#include <optional>
using namespace cbdc;
using namespace cbdc::transaction;
namespace v = cbdc::transaction::validation;
using u128 = unsigned __int128;
static secp256k1_context* ctx() { static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY); return c; }
struct wallet_key { privkey_t sk; pubkey_t pk; };
static std::vector<wallet_key>& keys() {
    static std::vector<wallet_key> k;
    if(k.empty()) for(unsigned i = 1; i <= 6; i++) { privkey_t sk{}; sk[31] = (unsigned char)i; sk[3] = 7; k.push_back({sk, pubkey_from_privkey(sk, ctx())}); }
    return k;
}
static hash_t H(unsigned n) { hash_t h{}; h[0] = (unsigned char)n; h[5] = (unsigned char)(n >> 8); return h; }
static signature_t sign(const wallet_key& k, const hash_t& m) {
    secp256k1_keypair kp{}; signature_t s{}; if(secp256k1_keypair_create(ctx(), &kp, k.sk.data()) != 1) std::abort();
    if(secp256k1_schnorrsig_sign(ctx(), s.data(), m.data(), &kp, nullptr, nullptr) != 1) std::abort();
    return s;
}
static bool sig_good(const unsigned char* pk, const unsigned char* s, const hash_t& m) {
    secp256k1_xonly_pubkey x{}; if(secp256k1_xonly_pubkey_parse(ctx(), &x, pk) != 1) return false;
    return secp256k1_schnorrsig_verify(ctx(), s, m.data(), &x) == 1;
}
static bool key_good(const unsigned char* pk) { secp256k1_xonly_pubkey x{}; return secp256k1_xonly_pubkey_parse(ctx(), &x, pk) == 1; }
static hash_t sha_of(const std::vector<unsigned char>& b) { CSHA256 s; hash_t r; s.Write(b.data(), b.size()); s.Finalize(r.data()); return r; }
static void put(std::vector<unsigned char>& b, const unsigned char* p, size_t n) { b.insert(b.end(), p, p + n); }
static void put64(std::vector<unsigned char>& b, uint64_t x) { for(int i = 0; i < 8; i++) b.push_back((unsigned char)(x >> (8 * i))); }
static void put_out(std::vector<unsigned char>& b, const output& o) { put(b, o.m_witness_program_commitment.data(), 32); put64(b, o.m_value); }
static void put_in(std::vector<unsigned char>& b, const input& i) { put(b, i.m_prevout.m_tx_id.data(), 32); put64(b, i.m_prevout.m_index); put_out(b, i.m_prevout_data); }
static hash_t ref_id(const full_tx& tx) {
    std::vector<unsigned char> b; put64(b, tx.m_inputs.size()); for(auto& i : tx.m_inputs) put_in(b, i); put64(b, tx.m_outputs.size()); for(auto& o : tx.m_outputs) put_out(b, o); return sha_of(b);
}
static hash_t commit(const pubkey_t& p) { std::vector<unsigned char> b{0}; put(b, p.data(), 32); return sha_of(b); }
// is rule broken, by our own reading of the rules
static bool wit_broken(const full_tx& tx, size_t i, v::witness_error_code c) {
    if(i >= tx.m_witness.size()) return false;
    auto& w = tx.m_witness[i]; auto* b = reinterpret_cast<const unsigned char*>(w.data());
    using C = v::witness_error_code;
    switch(c) {
        case C::missing_witness_program_type: return w.empty();
        case C::unknown_witness_program_type: return !w.empty() && b[0] != 0;
        case C::malformed: return !w.empty() && b[0] == 0 && w.size() != 97;
        default: break;
    }
    if(w.size() != 97 || b[0] != 0 || i >= tx.m_inputs.size()) return false;
    if(c == C::program_mismatch) return sha_of({b, b + 33}) != tx.m_inputs[i].m_prevout_data.m_witness_program_commitment;
    if(c == C::invalid_public_key) return !key_good(b + 1);
    if(c == C::invalid_signature) return key_good(b + 1) && !sig_good(b + 1, b + 33, ref_id(tx));
    return false;
}
static void txs(vh::rng& r) {
    full_tx tx; size_t ni = r.chance(6) ? 0 : 1 + r.below(5), no = r.chance(6) ? 0 : 1 + r.below(5);
    auto val = [&]() -> uint64_t { switch(r.below(12)) { case 0: return r.chance(30) ? 0 : 1; case 1: return UINT64_MAX - r.below(3); case 2: return (1ULL << 63) + r.below(2); default: return 1 + r.below(50); } };
    std::vector<size_t> who;
    for(size_t i = 0; i < ni; i++) {
        input in; in.m_prevout.m_tx_id = H((unsigned)r.below(4)); in.m_prevout.m_index = r.below(4); who.push_back(r.below(6));
        if(!r.chance(15)) { in.m_prevout.m_index = 10 + i; }
        in.m_prevout_data.m_value = val(); in.m_prevout_data.m_witness_program_commitment = r.chance(3) ? H(9) : commit(keys()[who[i]].pk); tx.m_inputs.push_back(in);
    }
    u128 left = 0; for(auto& i : tx.m_inputs) left += i.m_prevout_data.m_value;
    for(size_t i = 0; i < no; i++) {
        output o; o.m_witness_program_commitment = H((unsigned)r.below(5)); bool bal = r.chance(85);
        uint64_t lft = (uint64_t)left;
        o.m_value = !bal ? val() : i + 1 == no ? lft : lft == 0 ? 0 : r.below(std::min<uint64_t>(lft, 60)) + (r.chance(90) ? 1 : 0);
        left -= std::min<u128>(left, o.m_value); tx.m_outputs.push_back(o);
    }
    if(no > 2 && r.chance(8)) { tx.m_outputs[no - 2].m_value += 1ULL << 63; tx.m_outputs[no - 1].m_value += 1ULL << 63; }
    if(ni > 2 && r.chance(5)) { tx.m_inputs[ni - 2].m_prevout_data.m_value += 1ULL << 63; tx.m_inputs[ni - 1].m_prevout_data.m_value += 1ULL << 63; }
    if(no > 1 && r.chance(40)) std::swap(tx.m_outputs[0], tx.m_outputs[no - 1]);
    hash_t id = ref_id(tx);
    vh::check(tx_id(tx) == id, "tx_id is the hash of inputs and outputs");
    size_t nw = r.chance(8) ? r.below(7) : ni;
    std::string s = "tx in:"; for(auto& i : tx.m_inputs) s += std::to_string(i.m_prevout.m_tx_id[0]) + "/" + std::to_string(i.m_prevout.m_index) + "=" + std::to_string(i.m_prevout_data.m_value) + " ";
    s += "out:"; for(auto& o : tx.m_outputs) s += std::to_string(o.m_value) + " "; s += "wit:";
    for(size_t i = 0; i < nw; i++) {
        witness_t w; w.push_back(std::byte{0}); auto& k = keys()[i < who.size() ? who[i] : 0]; auto sig = sign(k, id);
        for(auto b : k.pk) w.push_back(std::byte{b}); for(auto b : sig) w.push_back(std::byte{b});
        unsigned m = (unsigned)r.below(60);
        if(m == 0) w.clear();
        if(m == 1) w[0] = std::byte{1};
        if(m == 2) w.resize(r.below(120), std::byte{0});
        if(m == 3) w[1 + r.below(32)] ^= std::byte{1};
        if(m == 4) w[33 + r.below(64)] ^= std::byte{1};
        if(m == 5 && i < ni) { for(size_t j = 1; j < 33; j++) w[j] = std::byte{0xff}; auto* b = reinterpret_cast<unsigned char*>(w.data()); tx.m_inputs[i].m_prevout_data.m_witness_program_commitment = sha_of({b, b + 33}); }
        if(m == 6) { auto s2 = sign(k, H(3)); std::memcpy(&w[33], s2.data(), 64); }
        if(m == 7 && !tx.m_outputs.empty()) { auto t2 = tx; t2.m_outputs.back().m_value++; auto s2 = sign(k, ref_id(t2)); std::memcpy(&w[33], s2.data(), 64); }
        s += std::to_string(w.size()) + (m < 8 ? "!" + std::to_string(m) : "") + " "; tx.m_witness.push_back(w);
    }
    vh::log(s);
    // our own verdict
    bool ok = !tx.m_inputs.empty() && !tx.m_outputs.empty() && tx.m_witness.size() == tx.m_inputs.size();
    std::set<std::pair<std::string, uint64_t>> seen; std::vector<bool> dup;
    for(auto& i : tx.m_inputs) { bool d = !seen.insert({std::string(i.m_prevout.m_tx_id.begin(), i.m_prevout.m_tx_id.end()), i.m_prevout.m_index}).second; dup.push_back(d); ok &= !d && i.m_prevout_data.m_value != 0; }
    u128 ti = 0, to = 0; for(auto& i : tx.m_inputs) ti += i.m_prevout_data.m_value; for(auto& o : tx.m_outputs) { to += o.m_value; ok &= o.m_value != 0; }
    ok &= ti == to && (ti >> 64) == 0;
    for(size_t i = 0; ok && i < tx.m_witness.size(); i++) for(int c = 0; c < 6; c++) ok &= !wit_broken(tx, i, (v::witness_error_code)c);
    auto e = v::check_tx(tx);
    vh::logf("valid", ok, "answer", e ? "error" : "none");
    vh::check(ok == !e.has_value(), "check_tx reports no error exactly for valid transactions");
    if(!e) return;
    bool real = false;
    if(auto* p = std::get_if<v::input_error>(&*e)) real = p->m_idx < tx.m_inputs.size() && (p->m_code == v::input_error_code::duplicate ? dup[p->m_idx] && !p->m_data_err : p->m_data_err.has_value() && tx.m_inputs[p->m_idx].m_prevout_data.m_value == 0);
    if(auto* p = std::get_if<v::output_error>(&*e)) real = p->m_idx < tx.m_outputs.size() && tx.m_outputs[p->m_idx].m_value == 0;
    if(auto* p = std::get_if<v::witness_error>(&*e)) real = wit_broken(tx, p->m_idx, p->m_code);
    if(auto* p = std::get_if<v::tx_error_code>(&*e)) switch(*p) {
        case v::tx_error_code::no_inputs: real = tx.m_inputs.empty(); break;
        case v::tx_error_code::no_outputs: real = tx.m_outputs.empty(); break;
        case v::tx_error_code::missing_witness: real = tx.m_inputs.size() != tx.m_witness.size(); break;
        case v::tx_error_code::asymmetric_values: real = ti != to; break;
        case v::tx_error_code::value_overflow: real = (ti >> 64) != 0 || (to >> 64) != 0; break;
    }
    vh::check(real, "the error reported names a rule the transaction breaks");
}
static void compact(vh::rng& r) {
    full_tx tx; size_t ni = r.below(4), no = r.below(5);
    for(size_t i = 0; i < ni; i++) { input in; in.m_prevout.m_tx_id = H((unsigned)r.below(4)); in.m_prevout.m_index = r.next(); in.m_prevout_data.m_value = r.next(); in.m_prevout_data.m_witness_program_commitment = H((unsigned)r.below(9)); tx.m_inputs.push_back(in); }
    for(size_t i = 0; i < no; i++) { output o; o.m_value = r.next(); o.m_witness_program_commitment = H((unsigned)r.below(9)); tx.m_outputs.push_back(o); }
    vh::logf("compact", ni, no);
    compact_tx c(tx);
    vh::check(c.m_id == ref_id(tx), "a compact transaction carries the id of the transaction");
    vh::check(c.m_inputs.size() == ni && c.m_uhs_outputs.size() == no && c.m_attestations.empty(), "one id per input and output, no attestation");
    for(size_t i = 0; i < ni; i++) { std::vector<unsigned char> b; put_in(b, tx.m_inputs[i]); vh::check(c.m_inputs[i] == sha_of(b) && tx.m_inputs[i].hash() == sha_of(b), "input id is the hash of the input"); }
    for(size_t i = 0; i <= no; i++) {
        auto sp = input_from_output(tx, i, c.m_id), sp2 = input_from_output(tx, i);
        vh::check(sp.has_value() == (i < no) && sp2.has_value() == (i < no), "an input for every output, none otherwise");
        if(sp) vh::check(sp->hash() == c.m_uhs_outputs[i] && *sp == *sp2 && sp->m_prevout.m_index == i && sp->m_prevout_data == tx.m_outputs[i], "spending an output consumes the id its creation produced");
    }
    // attestations
    std::unordered_set<pubkey_t, hashing::null> set; for(auto& k : keys()) if(r.chance(60)) set.insert(k.pk);
    unsigned na = (unsigned)r.below(5); std::map<pubkey_t, bool> good;
    for(unsigned a = 0; a < na; a++) {
        auto& k = keys()[r.below(keys().size())]; auto at = c.sign(ctx(), k.sk); vh::check(at.first == k.pk, "attestation is under the signer's key");
        bool g = true; unsigned m = (unsigned)r.below(8);
        if(m == 0) { at.second[r.below(64)] ^= 1; g = false; }
        if(m == 1) { auto c2 = c; c2.m_uhs_outputs.push_back(H(77)); at = c2.sign(ctx(), k.sk); g = false; }
        if(m == 2) { auto c2 = c; c2.m_inputs.push_back(H(77)); at = c2.sign(ctx(), k.sk); g = false; }
        if(m == 3) { auto c2 = c; c2.m_id = H(78); at = c2.sign(ctx(), k.sk); g = false; }
        if(m == 4) { at.first = keys()[r.below(keys().size())].pk; g = at.first == k.pk; }
        if(!c.m_attestations.count(at.first)) { c.m_attestations.insert(at); good[at.first] = g; vh::check(c.verify(ctx(), at) == g, "verify accepts exactly valid signatures over this transaction"); }
    }
    bool all = true; for(auto& [k, g] : good) all &= g && set.count(k) == 1;
    for(size_t th = 0; th < 5; th++) vh::check(v::check_attestations(c, set, th) == (all && good.size() >= th), "check_attestations counts exactly valid attestations by configured keys, threshold " + std::to_string(th));
}
int main(int argc, char** argv) { return vh::main_loop(argc, argv, [](vh::rng& r) { if(r.chance(65)) txs(r); else compact(r); }); }
