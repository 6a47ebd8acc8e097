// SOURCES: src/util/serialization/buffer_serializer.cpp src/util/serialization/size_serializer.cpp src/util/serialization/format.cpp src/util/serialization/stream_serializer.cpp src/util/serialization/istream_serializer.cpp src/util/serialization/ostream_serializer.cpp src/util/common/buffer.cpp src/uhs/transaction/messages.cpp src/uhs/transaction/transaction.cpp src/uhs/transaction/validation.cpp src/uhs/atomizer/watchtower/tx_error_messages.cpp src/parsec/runtime_locking_shard/format.cpp src/uhs/twophase/locking_shard/format.cpp src/uhs/twophase/locking_shard/messages.cpp src/util/rpc/format.cpp
// LIBS: common crypto
// FLAGS: -include chrono -include $H/secp_shim.hpp -lsecp256k1 -fno-access-control -fno-sanitize=nonnull-attribute
// Oracle: the value written; the bytes written by the other serializers.
#include "h.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "parsec/runtime_locking_shard/messages.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/messages.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/istream_serializer.hpp"
#include "util/serialization/ostream_serializer.hpp"
#include "util/serialization/util.hpp"
#include <map>
#include <sstream>
using namespace cbdc;
namespace rl = cbdc::parsec::runtime_locking_shard;
namespace tx_ = cbdc::transaction;
enum class color : uint16_t { red, green, blue = 0xfffe };
template<class T> struct gen { static T make(vh::rng& r) { if constexpr(std::is_same_v<T, bool>) return r.chance(50); else if constexpr(std::is_integral_v<T>) return r.chance(30) ? (T)r.below(3) : r.chance(20) ? std::numeric_limits<T>::max() : (T)r.next(); else return T{}; } };
static size_t some(vh::rng& r) { return r.chance(25) ? 0 : (size_t)r.below(r.chance(80) ? 5 : 40); }
template<> struct gen<color> { static color make(vh::rng& r) { return r.chance(50) ? color::green : color::blue; } };
template<> struct gen<std::byte> { static std::byte make(vh::rng& r) { return (std::byte)r.next(); } };
template<> struct gen<buffer> { static buffer make(vh::rng& r) { buffer b; size_t n = r.below(600) == 0 ? 1048570 + r.below(12) : some(r); b.extend(n); for(size_t i = 0; i < n; i++) ((unsigned char*)b.data())[i] = (unsigned char)r.next(); return b; } };
template<class T, size_t n> struct gen<std::array<T, n>> { static auto make(vh::rng& r) { std::array<T, n> a; auto x0 = r.next(); for(auto& x : a) x = n > 1000 ? (T)(x0 += 77) : (T)r.next(); return a; } };
// 64 KiB: 16 of them reach the size readers reserve at once
using chunk = std::array<uint64_t, 8192>;
template<> struct gen<std::vector<chunk>> { static auto make(vh::rng& r) { std::vector<chunk> v; for(size_t i = r.chance(25) ? 1 : 14 + r.below(20); i > 0; i--) v.push_back(gen<chunk>::make(r)); return v; } };
template<> struct gen<std::unordered_map<uint16_t, chunk>> { static auto make(vh::rng& r) { std::unordered_map<uint16_t, chunk> v; for(size_t i = r.chance(25) ? 1 : 14 + r.below(20); i > 0; i--) v[gen<uint16_t>::make(r)] = gen<chunk>::make(r); return v; } };
template<class T> struct gen<std::optional<T>> { static auto make(vh::rng& r) { std::optional<T> o; if(r.chance(60)) o = gen<T>::make(r); return o; } };
template<class A, class B> struct gen<std::pair<A, B>> { static auto make(vh::rng& r) { auto a = gen<A>::make(r); return std::pair<A, B>{a, gen<B>::make(r)}; } };
template<class T> struct gen<std::vector<T>> { static auto make(vh::rng& r) { std::vector<T> v; for(size_t i = some(r); i > 0; i--) v.push_back(gen<T>::make(r)); return v; } };
template<class T, class... X> struct gen<std::set<T, X...>> { static auto make(vh::rng& r) { std::set<T, X...> v; for(size_t i = some(r); i > 0; i--) v.insert(gen<T>::make(r)); return v; } };
template<class T, class... X> struct gen<std::unordered_set<T, X...>> { static auto make(vh::rng& r) { std::unordered_set<T, X...> v; for(size_t i = some(r); i > 0; i--) v.insert(gen<T>::make(r)); return v; } };
template<class K, class V, class... X> struct gen<std::unordered_map<K, V, X...>> { static auto make(vh::rng& r) { std::unordered_map<K, V, X...> v; for(size_t i = some(r); i > 0; i--) { auto k = gen<K>::make(r); v.insert({k, gen<V>::make(r)}); } return v; } };
template<class... Ts> struct gen<std::variant<Ts...>> { static auto make(vh::rng& r) { std::variant<Ts...> v; size_t k = r.below(sizeof...(Ts)), i = 0; ((i++ == k ? (void)(v = std::variant<Ts...>(std::in_place_type<Ts>, gen<Ts>::make(r))) : (void)0), ...); return v; } };
template<> struct gen<tx_::out_point> { static auto make(vh::rng& r) { tx_::out_point o; o.m_tx_id = gen<hash_t>::make(r); o.m_index = r.next(); return o; } };
template<> struct gen<tx_::output> { static auto make(vh::rng& r) { tx_::output o; o.m_witness_program_commitment = gen<hash_t>::make(r); o.m_value = r.next(); return o; } };
template<> struct gen<tx_::input> { static auto make(vh::rng& r) { tx_::input o; o.m_prevout = gen<tx_::out_point>::make(r); o.m_prevout_data = gen<tx_::output>::make(r); return o; } };
template<> struct gen<tx_::full_tx> { static auto make(vh::rng& r) { tx_::full_tx t; t.m_inputs = gen<std::vector<tx_::input>>::make(r); t.m_outputs = gen<std::vector<tx_::output>>::make(r); t.m_witness = gen<std::vector<witness_t>>::make(r); return t; } };
template<> struct gen<tx_::compact_tx> { static auto make(vh::rng& r) { tx_::compact_tx t; t.m_id = gen<hash_t>::make(r); t.m_inputs = gen<std::vector<hash_t>>::make(r); t.m_uhs_outputs = gen<std::vector<hash_t>>::make(r); for(size_t i = some(r); i; i--) { auto k = gen<pubkey_t>::make(r); t.m_attestations.insert({k, gen<signature_t>::make(r)}); } return t; } };
template<> struct gen<tx_::validation::input_error> { static auto make(vh::rng& r) { tx_::validation::input_error e; e.m_code = (tx_::validation::input_error_code)r.below(3); if(r.chance(50)) e.m_data_err = (tx_::validation::output_error_code)r.below(2); e.m_idx = r.next(); return e; } };
template<> struct gen<rl::shard_error> { static auto make(vh::rng& r) { rl::shard_error e; e.m_error_code = (rl::error_code)r.below(11); if(r.chance(50)) e.m_wounded_details = rl::wounded_details{r.next(), gen<buffer>::make(r)}; return e; } };
template<> struct gen<rl::rpc::try_lock_request> { static auto make(vh::rng& r) { rl::rpc::try_lock_request q; q.m_ticket_number = r.next(); q.m_broker_id = r.next(); q.m_key = gen<buffer>::make(r); q.m_locktype = r.chance(50) ? rl::lock_type::read : rl::lock_type::write; q.m_first_lock = r.chance(50); return q; } };
template<> struct gen<rl::rpc::prepare_request> { static auto make(vh::rng& r) { rl::rpc::prepare_request q; q.m_ticket_number = r.next(); q.m_broker_id = r.next(); q.m_state_updates = gen<rl::state_update_type>::make(r); return q; } };
template<> struct gen<rl::rpc::replicated_prepare_request> { static auto make(vh::rng& r) { rl::rpc::replicated_prepare_request q; q.m_ticket_number = r.next(); q.m_broker_id = r.next(); q.m_state_update = gen<rl::state_update_type>::make(r); return q; } };
template<> struct gen<rl::rpc::commit_request> { static auto make(vh::rng& r) { rl::rpc::commit_request q; q.m_ticket_number = r.next(); return q; } };
template<> struct gen<locking_shard::tx> { static auto make(vh::rng& r) { locking_shard::tx t; t.m_tx = gen<tx_::compact_tx>::make(r); return t; } };
template<class T> struct gen<rpc::request<T>> { static auto make(vh::rng& r) { rpc::request<T> q; q.m_header.m_request_id = r.next(); q.m_payload = gen<T>::make(r); return q; } };
template<> struct gen<watchtower::tx_error> { static auto make(vh::rng& r) { auto id = gen<hash_t>::make(r); switch(r.below(5)) { case 0: return watchtower::tx_error(id, watchtower::tx_error_sync{}); case 1: return watchtower::tx_error(id, watchtower::tx_error_stxo_range{}); case 2: return watchtower::tx_error(id, watchtower::tx_error_incomplete{}); case 3: return watchtower::tx_error(id, watchtower::tx_error_inputs_dne{gen<std::vector<hash_t>>::make(r)}); default: return watchtower::tx_error(id, watchtower::tx_error_inputs_spent{gen<std::unordered_set<hash_t, hashing::null>>::make(r)}); } } };

static std::vector<unsigned char> raw(const buffer& b) { auto* p = (const unsigned char*)b.data(); return {p, p + b.size()}; }
template<class T> static auto bytes(const T& v) { return raw(make_buffer(v)); }
template<class T> concept Eq = requires(const T& a, const T& b) { { a == b } -> std::convertible_to<bool>; };
template<class T> static bool eq(const T& a, const T& b) { if constexpr(requires { a.m_attestations; a.m_uhs_outputs; }) return a.m_id == b.m_id && a.m_inputs == b.m_inputs && a.m_uhs_outputs == b.m_uhs_outputs && a.m_attestations == b.m_attestations;
    else if constexpr(std::is_same_v<T, locking_shard::tx>) return eq(a.m_tx, b.m_tx);
    else if constexpr(requires { a.m_state_updates; }) return a.m_state_updates == b.m_state_updates && a.m_ticket_number == b.m_ticket_number && a.m_broker_id == b.m_broker_id;
    else if constexpr(requires { a.m_state_update; }) return a.m_state_update == b.m_state_update && a.m_ticket_number == b.m_ticket_number && a.m_broker_id == b.m_broker_id;
    else if constexpr(requires { a.m_header; a.m_payload; }) return a.m_header.m_request_id == b.m_header.m_request_id && eq(a.m_payload, b.m_payload);
    else if constexpr(requires { typename T::value_type; a[0]; a.push_back(a[0]); }) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!eq(a[i], b[i])) return false; return true; }
    else if constexpr(Eq<T>) return a == b; else return bytes(a) == bytes(b); }
// T{} for types which are not default constructible: read with a constructor
template<class T> struct reader { T v{}; bool get(serializer& d) { d >> v; return (bool)d; } const T& val() const { return v; } };
template<> struct reader<watchtower::tx_error> { std::unique_ptr<watchtower::tx_error> v; bool get(serializer& d) { v = std::make_unique<watchtower::tx_error>(d); return (bool)d; } const watchtower::tx_error& val() const { return *v; } };
template<class T> constexpr bool has_variant = false;
template<class... Ts> constexpr bool has_variant<std::variant<Ts...>> = true;
template<class T> constexpr bool has_variant<std::vector<T>> = has_variant<T>;
template<> constexpr bool has_variant<watchtower::tx_error> = true;
template<class T> constexpr bool has_opt = std::is_integral_v<T>;
template<> constexpr bool has_opt<std::optional<uint64_t>> = true;
static buffer from(const std::vector<unsigned char>& v) { buffer b; if(!v.empty()) b.append(v.data(), v.size()); return b; }
template<class T> static void one_type(vh::rng& r, const char* nm) {
    T v = gen<T>::make(r); auto b = bytes(v); vh::logf(nm, b.size(), "bytes");
    vh::check(b.size() == serialized_size(v), "serialized_size is the number of bytes written");
    // into an empty buffer, at an offset
    buffer g; buffer_serializer ser(g); size_t off = r.below(9); for(size_t i = 0; i < off; i++) ser << (uint8_t)i; ser << v; vh::check((bool)ser && ser.end_of_buffer(), "writing is always accepted"); auto gb = raw(g);
    vh::check(gb.size() == off + b.size() && std::equal(b.begin(), b.end(), gb.begin() + (long)off), "the same bytes at every position");
    // into a value in use (containers are appended to)
    if constexpr(has_opt<T>) { buffer s = from(b); buffer_serializer d(s); T w = gen<T>::make(r); d >> w; vh::check((bool)d && eq(w, v), "an optional is overwritten by what is read"); }
    // overwrite in the middle: bytes behind stay
    { buffer h = from(std::vector<unsigned char>(off + b.size() + 5, 0xab)); buffer_serializer s2(h); s2.advance_cursor(off); s2 << v; auto hb = raw(h); vh::check(hb.size() == off + b.size() + 5 && std::equal(b.begin(), b.end(), hb.begin() + (long)off), "writes at the cursor"); for(size_t i = 0; i < hb.size(); i++) if(i < off || i >= off + b.size()) vh::check(hb[i] == 0xab, "writes nothing else"); }
    auto junk = r.below(20); auto all = b; for(size_t i = 0; i < junk; i++) all.push_back((unsigned char)r.next());
    { buffer s = from(all); buffer_serializer d(s); reader<T> w; vh::check(w.get(d), "reads what was written"); vh::check(eq(w.val(), v), "reads the value written"); vh::check(d.m_cursor == b.size(), "consumes exactly the bytes written"); vh::check(d.end_of_buffer() == (junk == 0), "end of buffer is reached exactly at its end");
      if(!std::is_same_v<T, watchtower::tx_error>) { d.reset(); reader<T> w2; vh::check(w2.get(d) && eq(w2.val(), v), "reads it again after a reset"); } }
    // streams
    { std::stringstream ss; { ostream_serializer o(ss); o << v; vh::check((bool)o, "stream takes it"); } auto str = ss.str(); vh::check(str.size() == b.size() && std::equal(b.begin(), b.end(), (const unsigned char*)str.data()), "streams carry the same bytes");
      std::istringstream in(str); istream_serializer d(in); reader<T> w; vh::check(w.get(d) && eq(w.val(), v), "reads from a stream"); vh::check(d.end_of_buffer(), "the stream is read to its end"); }
    // truncated
    for(int k = 0; k < 4 && !b.empty(); k++) {
        size_t n = k == 0 ? b.size() - 1 : r.below(b.size()); auto part = b; part.resize(n);
        // get_variant aborts when not even its index is there (known finding); keep the index
        if(std::is_same_v<T, watchtower::tx_error> && n < 33) continue;
        buffer s = from(part); buffer_serializer d(s); reader<T> w; bool ok = true; try { ok = w.get(d); } catch(const std::exception& e) { vh::fail(std::string("a truncated message throws: ") + e.what()); }
        vh::check(!ok, "a truncated message is accepted"); vh::check(d.m_cursor <= n, "reads behind the end");
        uint64_t x{}; for(size_t i = 0; i < n + 2 && d.read(&x, 1); i++) {} vh::check(!(bool)d, "the failure is forgotten without a reset"); d.reset(); vh::check((bool)d, "valid again after a reset");
        if(r.chance(30)) { std::istringstream in(std::string((const char*)part.data(), part.size())); istream_serializer di(in); reader<T> w2; try { ok = w2.get(di); } catch(const std::exception& e) { vh::fail(std::string("a truncated stream throws: ") + e.what()); } vh::check(!ok, "a truncated stream is accepted"); }
    }
    // corrupted: nothing but a value or a failure (an unknown variant index is a known finding)
    if constexpr(!has_variant<T>) for(int k = 0; k < 3 && !b.empty(); k++) {
        auto bad = all; unsigned m = 1 + (unsigned)r.below(3); for(unsigned i = 0; i < m; i++) { size_t at = r.below(bad.size()); if(r.chance(30) && at + 8 <= bad.size()) for(size_t j = 0; j < 8; j++) bad[at + j] = r.chance(50) ? 0xff : (unsigned char)r.below(2); else bad[at] = (unsigned char)r.next(); }
        try { buffer s = from(bad); buffer_serializer d(s); reader<T> w; bool ok = w.get(d); vh::check(d.m_cursor <= bad.size(), "reads behind the end"); if(ok) { auto again = bytes(w.val()); (void)again; } }
        catch(const std::exception& e) { vh::logf("corrupted", m); vh::fail(std::string("a corrupted message throws: ") + e.what()); }
        if(r.chance(30)) try { std::istringstream in(std::string((const char*)bad.data(), bad.size())); istream_serializer d(in); reader<T> w; w.get(d); } catch(const std::exception& e) { vh::fail(std::string("a corrupted stream throws: ") + e.what()); }
    }
}
// the serializers alone: any sequence of reads, writes and seeks against a byte array
static void raw_ops(vh::rng& r) {
    std::vector<unsigned char> ref; buffer b; size_t n0 = r.below(30); for(size_t i = 0; i < n0; i++) ref.push_back((unsigned char)r.next()); b = from(ref);
    buffer_serializer s(b); size_serializer z; size_t zc = 0; size_t cur = 0; bool valid = true; std::vector<unsigned char> big(4096, 1);
    for(int k = 0; k < 30; k++) {
        size_t len = r.chance(10) ? SIZE_MAX - r.below(40) : r.below(20);
        switch(r.below(6)) {
            case 0: if(len > 4000) len = 3; { std::vector<unsigned char> d; for(size_t i = 0; i < len; i++) d.push_back((unsigned char)r.next()); if(cur > ref.size() + 4000) break; if(len == 0 && cur >= ref.size()) break; vh::logf("write", cur, len); vh::check(s.write(d.data(), len), "write"); if(cur + len > ref.size()) ref.resize(cur + len); std::copy(d.begin(), d.end(), ref.begin() + (long)cur); cur += len; z.write(d.data(), len); zc += len; vh::check(z.size() == zc, "size counted"); break; }
            case 1: case 2: { vh::logf("read", cur, len); std::vector<unsigned char> d(len > 4000 ? 1 : len + 1, 0x5a); bool ok = cur <= ref.size() && len <= ref.size() - cur; if(len == 0 && cur >= ref.size()) break; auto got = s.read(d.data(), len); vh::check(got == ok, "a read is accepted exactly when the bytes are there"); if(ok) { vh::check(std::equal(d.begin(), d.begin() + (long)len, ref.begin() + (long)cur), "the bytes at the cursor"); vh::check(d[len] == 0x5a, "no more than asked for"); cur += len; } else { valid = false; vh::check(d[0] == 0x5a, "a failed read writes nothing"); } break; }
            case 3: if(len > 4000 || cur > 8000) len = 0; if(r.chance(20)) len = 0; vh::logf("advance", len); s.advance_cursor(len); cur += len; break;
            case 4: if(r.chance(40)) { vh::logf("reset"); s.reset(); cur = 0; valid = true; z.reset(); zc = 0; } break;
            default: vh::check(s.end_of_buffer() == (cur >= ref.size()), "end of buffer"); vh::check(!z.end_of_buffer() && (bool)z && !z.read(big.data(), 1), "the size serializer reads nothing");
        }
        vh::check((bool)s == valid, "validity"); vh::check(raw(b) == ref, "contents of the buffer");
    }
}
static void one(vh::rng& r) {
#define T(...) one_type<__VA_ARGS__>(r, #__VA_ARGS__)
    switch(r.below(36)) {
        case 0: case 1: raw_ops(r); break; case 2: T(uint8_t); break; case 3: T(int16_t); break; case 4: T(uint64_t); break; case 5: T(bool); break; case 6: T(color); break; case 7: T(std::byte); break; case 8: T(buffer); break; case 9: T(hash_t); break;
        case 10: T(std::optional<uint64_t>); break; case 11: T(std::optional<std::optional<buffer>>); break; case 12: T(std::pair<uint8_t, std::optional<hash_t>>); break; case 13: T(std::vector<uint64_t>); break; case 14: T(std::vector<std::vector<buffer>>); break;
        case 15: T(std::set<uint32_t>); break; case 16: T(std::unordered_set<uint16_t>); break; case 17: T(std::unordered_map<uint64_t, buffer>); break; case 18: T(std::unordered_map<uint8_t, std::vector<uint8_t>>); break; case 19: T(std::variant<uint64_t, buffer, std::optional<uint8_t>>); break;
        case 20: T(std::vector<std::variant<uint8_t, std::vector<hash_t>>>); break; case 21: T(tx_::full_tx); break; case 22: T(tx_::compact_tx); break; case 23: T(tx_::validation::input_error); break; case 24: T(rl::shard_error); break; case 25: T(rl::rpc::try_lock_request); break;
        case 26: T(rl::rpc::prepare_request); break; case 27: T(rl::rpc::replicated_prepare_request); break; case 28: T(rl::rpc::commit_request); break; case 29: T(locking_shard::tx); break; case 30: T(rpc::request<std::vector<tx_::compact_tx>>); break; case 31: T(watchtower::tx_error); break;
        case 32: T(std::array<uint32_t, 5>); break; case 33: if(r.chance(4)) T(std::vector<chunk>); break; case 34: if(r.chance(4)) { T(std::unordered_map<uint16_t, chunk>); } break; default: T(std::vector<std::optional<std::pair<hash_t, uint8_t>>>);
    }
}
int main(int argc, char** argv) { return vh::main_loop(argc, argv, one); }
