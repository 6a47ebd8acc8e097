// SOURCES: src/util/common/buffer.cpp src/util/common/hash.cpp
// LIBS: crypto
// Oracle: a table-driven hex codec written here.
#include "h.hpp"
#include "util/common/buffer.hpp"
#include "util/common/hash.hpp"
#include <optional>
using namespace cbdc;
static int hv(char c) { if(c >= '0' && c <= '9') return c - '0'; if(c >= 'a' && c <= 'f') return c - 'a' + 10; if(c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static std::optional<std::string> dec(const std::string& s) {
    if(s.empty() || s.size() % 2 || s.size() > 102400) return std::nullopt;
    std::string r; for(size_t i = 0; i < s.size(); i += 2) { if(hv(s[i]) < 0 || hv(s[i + 1]) < 0) return std::nullopt; r.push_back((char)(hv(s[i]) * 16 + hv(s[i + 1]))); } return r;
}
static std::string enc(const std::string& b) { std::string r; for(unsigned char c : b) { r.push_back("0123456789abcdef"[c / 16]); r.push_back("0123456789abcdef"[c % 16]); } return r; }
static std::string S(const buffer& b) { return std::string((const char*)b.data(), b.size()); }
static buffer B(const std::string& s) { buffer b; if(!s.empty()) b.append(s.data(), s.size()); return b; }
static std::string bytes(vh::rng& r, size_t n) { std::string s; for(size_t i = 0; i < n; i++) s.push_back((char)(r.chance(20) ? (r.chance(50) ? 0 : 255) : r.below(256))); return s; }
static std::string text(vh::rng& r, size_t n) {
    static const std::string hex = "0123456789abcdefABCDEF", odd = " \t\n+-xXgG/:@`_.0";
    std::string s; unsigned bad = r.chance(40) ? (unsigned)r.below(8) : 0;
    for(size_t i = 0; i < n; i++) s.push_back(r.below(10) < bad && r.chance(30) ? (r.chance(60) ? odd[r.below(odd.size())] : (char)r.below(256)) : hex[r.below(hex.size())]);
    if(r.chance(15)) s = "0x" + s; if(r.chance(10) && s.size() > 2) s[s.size() - 1] = r.chance(50) ? ' ' : '\0'; return s;
}
static void same(const std::optional<buffer>& got, const std::optional<std::string>& want, const char* what) {
    vh::check(got.has_value() == want.has_value(), std::string(what) + ": accepted exactly when valid");
    if(got) vh::check(S(*got) == *want, std::string(what) + ": the bytes of the digits");
}
static void one(vh::rng& r) {
    auto b = bytes(r, r.chance(5) ? 51199 + r.below(4) : r.below(70)); auto h = B(b).to_hex(); vh::logf("bytes", enc(b.substr(0, 80)));
    vh::check(h == enc(b), "to_hex: two lower-case digits per byte"); same(buffer::from_hex(h), dec(h), "round trip");
    std::vector<std::string> pre{"0x", "", "0X", "x", "ab", "00"}; auto p = r.pick(pre);
    vh::check(B(b).to_hex_prefixed(p) == p + enc(b), "to_hex_prefixed: prefix then digits");
    auto t = text(r, r.chance(3) ? 102398 + r.below(5) : r.below(8) == 0 ? 62 + r.below(5) : r.below(12)); vh::logf("text", t.substr(0, 100), t.size());
    same(buffer::from_hex(t), dec(t), "from_hex");
    if(r.chance(50)) t = p + t; if(r.chance(10)) t = p + t; vh::logf("prefixed", p, t.substr(0, 100));
    auto rest = t.compare(0, p.size(), p) == 0 ? t.substr(p.size()) : t; if(rest.size() % 2) rest = "0" + rest;
    same(buffer::from_hex_prefixed(t, p), dec(rest), "from_hex_prefixed");
    struct { unsigned char before[64]; hash_t h; unsigned char after[64]; } m; // the hash between guard bytes
    std::memset(&m, 0xAB, sizeof m); auto hb = bytes(r, 32); std::memcpy(m.h.data(), hb.data(), 32);
    auto hs = to_string(m.h); vh::check(hs == enc(hb), "hash to_string: 64 digits"); vh::check(hash_from_hex(hs) == m.h, "hash round trip");
    auto up = hs; for(auto& c : up) if(r.chance(50)) c = (char)toupper(c); vh::check(hash_from_hex(up) == m.h, "upper-case digits");
    auto x = text(r, r.below(2) ? r.below(140) : 60 + r.below(10)); vh::logf("hash text", x); m.h = hash_from_hex(x);
    for(int i = 0; i < 64; i++) vh::check(m.before[i] == 0xAB && m.after[i] == 0xAB, "hash_from_hex stays within the hash");
}
int main(int c, char** v) { return vh::main_loop(c, v, one); }
