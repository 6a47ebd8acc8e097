"""config: reading the options of every component and checking what the architecture needs"""
from units.common import *
import lib

N_ = "cbdc::config"
Pq = N_ + "::parser"
St = usort("Str")
VT = "std::optional<std::variant<std::string, unsigned long, double>>"
LVL = TInt(8, False)
WARN = z3.IntVal(3)   # the documented default
J = z3.Int


# ---- vocabulary ---------------------------------------------------------------------------------
from lib import bv


def ufv(E, name, T, ts):
    return Val(T, [E.uf("%s_%d" % (name, i), ts, s) for i, s in enumerate(T.leaves())])


def raw(E, cfg, key):
    """the value stored for a key (or given by the environment), if any"""
    return ufv(E, "config_value", E.types.parse(VT, N_), list(cfg.t) + [key])


def text(E, cfg, key):
    v = raw(E, cfg, key)
    return And(v.has(), v.val.idx == 0), v.val.alt(0).z


def num(E, cfg, key):
    v = raw(E, cfg, key)
    return And(v.has(), v.val.idx == 1), v.val.alt(1).z


def dec(E, cfg, key):
    v = raw(E, cfg, key)
    return And(v.has(), v.val.idx == 2), v.val.alt(2).t[0]


def EPT(E):
    return E.types.parse("cbdc::network::endpoint_t", N_)


def epv(E, s):
    """the endpoint a text denotes"""
    return ufv(E, "endpoint", EPT(E), [s])


def epok(E, s):
    return E.uf("is_endpoint", [s], B)


def ep(E, cfg, key):
    h, s = text(E, cfg, key)
    return And(h, epok(E, s)), epv(E, s)


def lvl(E, cfg, key):
    h, s = text(E, cfg, key)
    return If(And(h, E.uf("is_loglevel", [s], B)), E.uf("loglevel", [s], I), WARN)


def lit(E, s):
    return E.strconst(s)


def K1(E, name, i):
    return E.uf("key_" + name, [i], St)


def K2(E, name, i, j):
    return E.uf("key_" + name, [i, j], St)


def cnt(E, cfg, s):
    h, v = num(E, cfg, lit(E, s))
    return If(h, v, z3.IntVal(0))


def numor(E, cfg, s, old):
    h, v = num(E, cfg, lit(E, s))
    return If(h, v, old)


def hexkey(E, s):
    return E.uf("from_hex", [s], Hs)


def iskey(E, s):
    return E.uf("is_key", [s], B)


# ---- the parser's getters -------------------------------------------------------------------------
class Find(Contract):
    fn, short, trusted = Pq + "::find_or_env", "parser::find_or_env", True

    def ensures(self, C):
        return [("the value stored", same(C.ret, raw(C.E, C.this, C.arg(0).z)))]


class GetString(Contract):
    fn, short = Pq + "::get_string", "parser::get_string"

    def ensures(self, C):
        h, v = text(C.E, C.this, C.arg(0).z)
        return [("a value exactly if it is a text", C.ret.has() == h), ("that text", Imp(h, C.ret.val.z == v))]


class GetUlong(Contract):
    fn, short = Pq + "::get_ulong", "parser::get_ulong"

    def ensures(self, C):
        h, v = num(C.E, C.this, C.arg(0).z)
        return [("a value exactly if it is a number", C.ret.has() == h), ("that number", Imp(h, C.ret.val.z == v))]


class GetDecimal(Contract):
    fn, short = Pq + "::get_decimal", "parser::get_decimal"

    def ensures(self, C):
        h, v = dec(C.E, C.this, C.arg(0).z)
        return [("a value exactly if it is a decimal", C.ret.has() == h), ("that decimal", Imp(h, C.ret.val.t[0] == v))]


class GetEndpoint(Contract):
    fn, short = Pq + "::get_endpoint", "parser::get_endpoint"
    trusted = True

    def ensures(self, C):
        h, v = ep(C.E, C.this, C.arg(0).z)
        return [("a value exactly if it is an endpoint", C.ret.has() == h), ("that endpoint", Imp(h, same(C.ret.val, v)))]


class GetLoglevel(Contract):
    fn, short = Pq + "::get_loglevel", "parser::get_loglevel"

    def ensures(self, C):
        E = C.E
        h, s = text(E, C.this, C.arg(0).z)
        ok = And(h, E.uf("is_loglevel", [s], B))
        return [("a value exactly if it is the name of a level", C.ret.has() == ok), ("that level", Imp(ok, C.ret.val.z == E.uf("loglevel", [s], I)))]


class ParseLoglevel(Contract):
    fn, short, trusted = "cbdc::logging::parse_loglevel", "logging::parse_loglevel", True

    def ensures(self, C):
        s = C.arg(0).z
        return [("a function of the text", And(C.ret.has() == C.E.uf("is_loglevel", [s], B), Imp(C.ret.has(), C.ret.val.z == C.E.uf("loglevel", [s], I))))]


class FromHex(Contract):
    fn, short, trusted = "cbdc::hash_from_hex", "hash_from_hex", True

    def ensures(self, C):
        return [("a function of the text (C10)", C.ret.z == hexkey(C.E, C.arg(0).z))]


class IsKey(Contract):
    fn, short, trusted = N_ + "::is_key", "config::is_key", True

    def ensures(self, C):
        return [("a function of the text", C.ret.z == iskey(C.E, C.arg(0).z))]


KEYS1 = ["shard_endpoint", "atomizer_endpoint", "atomizer_raft_endpoint", "atomizer_loglevel", "sentinel_endpoint", "shard_db", "shard_end", "shard_start", "archiver_endpoint", "archiver_loglevel", "archiver_db",
         "shard_loglevel", "sentinel_loglevel", "watchtower_client_endpoint", "watchtower_internal_endpoint", "watchtower_loglevel", "shard_node_count", "coordinator_node_count", "coordinator_loglevel", "sentinel_private_key", "sentinel_public_key"]
KEYS2 = ["shard_raft_endpoint", "shard_endpoint", "shard_readonly_endpoint", "coordinator_endpoint", "coordinator_raft_endpoint"]


def keyfn(name, n):
    class Key(Contract):
        fn, nparams, trusted = N_ + "::get_" + name + "_key", n, True
        short = "config::get_%s_key/%d" % (name, n)

        def ensures(self, C):
            return [("names the setting", C.ret.z == C.E.uf("key_%s" % name + ("2" if n == 2 else ""), [C.arg(i).z for i in range(n)], St))]
    return Key()


def k2(E, name, i, j):
    return E.uf("key_" + name + "2", [i, j], St)


# ---- components -----------------------------------------------------------------------------------
def appended(new, old, n, val, upto=None):
    """new is old followed by val(0) .. val(n-1)"""
    return And(new.len == old.len + n, Forall([I], lambda i: Imp(frange(i, old.len), same(new.at(i), old.at(i))), lambda i: [new.at(i).t[0]]),
               Forall([I], lambda i: Imp(And(old.len <= i, i < old.len + n), eqv(new.at(i), val(i - old.len))), lambda i: [new.at(i).t[0]]))


def eqv(x, v):
    if isinstance(v, Val):
        return same(x, v)
    return And(*[a == b for a, b in zip(x.t, v if isinstance(v, list) else [v])])


def others(new, old, fields):
    return And(*[same(getattr(new, n), getattr(old, n)) for n, _ in new.T.fields if n not in fields])


class Section(Contract):
    """reads one component's options: fails exactly if something needed is missing, otherwise stores exactly what is configured"""
    fields = ()

    def modifies_args(self, C):
        return [0]

    def empty(self, o):
        return []

    def requires(self, C):
        return [("nothing read yet: " + n, getattr(C.arg(0), n).len == 0) for n in self.fresh]
    fresh = ()

    def ensures(self, C):
        E, o, n, cfg = C.E, C.arg(0), C.post_arg(0), C.arg(1)
        fails = [("refused exactly if something needed is missing or malformed", C.ret.has() == Not(self.complete(E, o, cfg)))] if isinstance(C.ret, Val) else []
        ok = Not(C.ret.has()) if fails else z3.BoolVal(True)
        return fails + [(nm, Imp(ok, f)) for nm, f in self.stored(E, o, n, cfg)] + [("no other option changes", others(n, o, self.fields))]

    def complete(self, E, o, cfg):
        return z3.BoolVal(True)


class ListSection(Section):
    """one entry per instance"""
    count = None

    def need(self, E, o, cfg, i):
        return z3.BoolVal(True)

    def lists(self, E, o, cfg):
        return []

    def single(self, E, o, n, cfg):
        return []

    def complete(self, E, o, cfg):
        return Forall([I], lambda i: Imp(frange(i, cnt(E, cfg, self.count)), self.need(E, o, cfg, i)))

    def stored(self, E, o, n, cfg):
        c = cnt(E, cfg, self.count)
        return [("%s as configured, in order" % f, appended(getattr(n, f), getattr(o, f), c, v)) for f, v in self.lists(E, o, cfg)] + self.single(E, o, n, cfg)

    def loopcands(self, Lc):
        E, o, n, cfg = Lc.E, Lc.arg(0), Lc.cur_arg(0), Lc.arg(1)
        for nn, i, _ in Lc.modified_locals(TInt):
            yield "needed so far " + nn, Forall([I], lambda k: Imp(frange(k, i.z), self.need(E, o, cfg, k)))
            yield "position " + nn, And(0 <= i.z, i.z <= cnt(E, cfg, self.count))
            for f, v in self.lists(E, o, cfg):
                yield "%s so far %s" % (f, nn), appended(getattr(n, f), getattr(o, f), i.z, v)
            for nm, p in self.inv(E, o, n, cfg, i.z):
                yield nm + nn, p

    def inv(self, E, o, n, cfg, i):
        return []


class Sentinels(ListSection):
    fn, short = N_ + "::read_sentinel_options", "config::read_sentinel_options"
    count = "sentinel_count"
    fields = ("m_attestation_threshold", "m_sentinel_endpoints", "m_sentinel_loglevels", "m_sentinel_private_keys", "m_sentinel_public_keys")

    def thr(self, E, o, cfg):
        return numor(E, cfg, "attestation_threshold", o.m_attestation_threshold.z)

    def need(self, E, o, cfg, i):
        hp, p = text(E, cfg, K1(E, "sentinel_private_key", i))
        hq, q = text(E, cfg, K1(E, "sentinel_public_key", i))
        return And(ep(E, cfg, K1(E, "sentinel_endpoint", i))[0], Imp(hp, iskey(E, p)), Imp(hq, iskey(E, q)), Or(hq, self.thr(E, o, cfg) == 0))

    def lists(self, E, o, cfg):
        return [("m_sentinel_endpoints", lambda i: ep(E, cfg, K1(E, "sentinel_endpoint", i))[1]), ("m_sentinel_loglevels", lambda i: lvl(E, cfg, K1(E, "sentinel_loglevel", i)))]

    def keys(self, E, o, n, cfg, c):
        pk, qk = n.m_sentinel_private_keys, n.m_sentinel_public_keys
        op, oq = o.m_sentinel_private_keys, o.m_sentinel_public_keys
        priv = lambda i: text(E, cfg, K1(E, "sentinel_private_key", i))
        pub = lambda i: text(E, cfg, K1(E, "sentinel_public_key", i))
        w = J("w_")
        return [("private keys as configured", Forall([I], lambda i: And(pk.has(i) == Or(op.has(i), And(frange(i, c), priv(i)[0])),
                                                                         Imp(And(frange(i, c), priv(i)[0]), pk.at(i).z == hexkey(E, priv(i)[1]))), lambda i: [pk.has(i)])),
                ("public keys are all there", Forall([I], lambda i: Imp(And(frange(i, c), pub(i)[0]), qk.has(hexkey(E, pub(i)[1]))))),
                ("public keys given before stay", Forall([Hs], lambda h: Imp(oq.has(h), qk.has(h)))),
                ("no other public key", Forall([Hs], lambda h: Imp(And(qk.has(h), Not(oq.has(h))), z3.Exists([w], And(frange(w, c), pub(w)[0], h == hexkey(E, pub(w)[1]))))))]

    def single(self, E, o, n, cfg):
        return [("threshold as configured", n.m_attestation_threshold.z == self.thr(E, o, cfg))] + self.keys(E, o, n, cfg, cnt(E, cfg, self.count))

    def inv(self, E, o, n, cfg, i):
        return self.keys(E, o, n, cfg, i) + [("threshold ", n.m_attestation_threshold.z == self.thr(E, o, cfg))]


class Atomizers(ListSection):
    fn, short = N_ + "::read_atomizer_options", "config::read_atomizer_options"
    count = "atomizer_count"
    fields = ("m_atomizer_endpoints", "m_atomizer_loglevels", "m_atomizer_raft_endpoints", "m_target_block_interval", "m_stxo_cache_depth")

    def need(self, E, o, cfg, i):
        return And(ep(E, cfg, K1(E, "atomizer_endpoint", i))[0], ep(E, cfg, K1(E, "atomizer_raft_endpoint", i))[0])

    def lists(self, E, o, cfg):
        return [("m_atomizer_endpoints", lambda i: ep(E, cfg, K1(E, "atomizer_endpoint", i))[1]), ("m_atomizer_loglevels", lambda i: lvl(E, cfg, K1(E, "atomizer_loglevel", i))),
                ("m_atomizer_raft_endpoints", lambda i: ep(E, cfg, K1(E, "atomizer_raft_endpoint", i))[1])]

    def single(self, E, o, n, cfg):
        return [(f, getattr(n, f).z == numor(E, cfg, k, getattr(o, f).z)) for f, k in (("m_target_block_interval", "target_block_interval"), ("m_stxo_cache_depth", "stxo_cache_depth"))]


class Archivers(ListSection):
    fn, short = N_ + "::read_archiver_options", "config::read_archiver_options"
    count = "archiver_count"
    fields = ("m_archiver_endpoints", "m_archiver_loglevels", "m_archiver_db_dirs")

    def need(self, E, o, cfg, i):
        return And(ep(E, cfg, K1(E, "archiver_endpoint", i))[0], text(E, cfg, K1(E, "archiver_db", i))[0])

    def lists(self, E, o, cfg):
        return [("m_archiver_endpoints", lambda i: ep(E, cfg, K1(E, "archiver_endpoint", i))[1]), ("m_archiver_loglevels", lambda i: lvl(E, cfg, K1(E, "archiver_loglevel", i))),
                ("m_archiver_db_dirs", lambda i: text(E, cfg, K1(E, "archiver_db", i))[1])]


class Watchtowers(ListSection):
    fn, short = N_ + "::read_watchtower_options", "config::read_watchtower_options"
    count = "watchtower_count"
    fields = ("m_watchtower_client_endpoints", "m_watchtower_internal_endpoints", "m_watchtower_loglevels", "m_watchtower_block_cache_size", "m_watchtower_error_cache_size")

    def need(self, E, o, cfg, i):
        return And(ep(E, cfg, K1(E, "watchtower_client_endpoint", i))[0], ep(E, cfg, K1(E, "watchtower_internal_endpoint", i))[0])

    def lists(self, E, o, cfg):
        return [("m_watchtower_client_endpoints", lambda i: ep(E, cfg, K1(E, "watchtower_client_endpoint", i))[1]), ("m_watchtower_internal_endpoints", lambda i: ep(E, cfg, K1(E, "watchtower_internal_endpoint", i))[1]),
                ("m_watchtower_loglevels", lambda i: lvl(E, cfg, K1(E, "watchtower_loglevel", i)))]

    def single(self, E, o, n, cfg):
        return [(f, getattr(n, f).z == numor(E, cfg, k, getattr(o, f).z)) for f, k in (("m_watchtower_block_cache_size", "watchtower_block_cache_size"), ("m_watchtower_error_cache_size", "watchtower_error_cache_size"))]


class Shards(ListSection):
    fn, short = N_ + "::read_shard_options", "config::read_shard_options"
    count = "shard_count"
    fields = ("m_shard_endpoints", "m_shard_db_dirs", "m_shard_loglevels", "m_shard_ranges", "m_shard_completed_txs_cache_size", "m_seed_from", "m_seed_to", "m_seed_privkey", "m_seed_value")

    def lo(self, E, cfg, i):
        return num(E, cfg, K1(E, "shard_start", i))

    def hi(self, E, cfg, i):
        return num(E, cfg, K1(E, "shard_end", i))

    def need(self, E, o, cfg, i):
        (a, x), (b, y) = self.lo(E, cfg, i), self.hi(E, cfg, i)
        return And(a, b, x < 256, y < 256, Or(o.m_twophase_mode.z, And(ep(E, cfg, K1(E, "shard_endpoint", i))[0], text(E, cfg, K1(E, "shard_db", i))[0])))

    def lists(self, E, o, cfg):
        return [("m_shard_loglevels", lambda i: lvl(E, cfg, K1(E, "shard_loglevel", i))), ("m_shard_ranges", lambda i: [self.lo(E, cfg, i)[1], self.hi(E, cfg, i)[1]])]

    def alone(self, E, o, n, cfg, c):
        return [("%s as configured, in order" % f, If(o.m_twophase_mode.z, same(getattr(n, f), getattr(o, f)), appended(getattr(n, f), getattr(o, f), c, v))) for f, v in
                (("m_shard_endpoints", lambda i: ep(E, cfg, K1(E, "shard_endpoint", i))[1]), ("m_shard_db_dirs", lambda i: text(E, cfg, K1(E, "shard_db", i))[1]))]

    def seed(self, E, o, cfg):
        return numor(E, cfg, "seed_from", o.m_seed_from.z), numor(E, cfg, "seed_to", o.m_seed_to.z)

    def complete(self, E, o, cfg):
        f, t = self.seed(E, o, cfg)
        h, k = text(E, cfg, lit(E, "seed_privkey"))
        return And(super().complete(E, o, cfg), Or(f == t, And(h, iskey(E, k), E.uf("len_Str", [k], I) == 64)))

    def single(self, E, o, n, cfg):
        f, t = self.seed(E, o, cfg)
        h, k = text(E, cfg, lit(E, "seed_privkey"))
        return self.alone(E, o, n, cfg, cnt(E, cfg, self.count)) + [
            ("m_shard_completed_txs_cache_size", n.m_shard_completed_txs_cache_size.z == numor(E, cfg, "shard_completed_txs_cache_size", o.m_shard_completed_txs_cache_size.z)),
            ("seed range", And(n.m_seed_from.z == f, n.m_seed_to.z == t)),
            ("seed key and value", Imp(f != t, And(n.m_seed_privkey.has(), n.m_seed_privkey.val.z == hexkey(E, k), n.m_seed_value.z == numor(E, cfg, "seed_value", o.m_seed_value.z)))),
            ("no seed", Imp(f == t, And(same(n.m_seed_privkey, o.m_seed_privkey), n.m_seed_value.z == o.m_seed_value.z)))]

    def inv(self, E, o, n, cfg, i):
        return self.alone(E, o, n, cfg, i)


class Nested(Section):
    """one list of nodes per cluster"""
    def on(self, o):
        return z3.BoolVal(True)

    def nodes(self, E, cfg, i):
        return num(E, cfg, K1(E, self.nk, i))

    def node(self, E, cfg, i, j):
        return And(*[ep(E, cfg, k2(E, k, i, j))[0] for _, k in self.vecs])

    def clusters(self, E, cfg):
        return cnt(E, cfg, self.count)

    def row_ok(self, E, cfg, i, m):
        return Forall([I], lambda j: Imp(frange(j, m), self.node(E, cfg, i, j)))

    def complete(self, E, o, cfg):
        return Or(Not(self.on(o)), And(self.allrows(E, cfg, self.clusters(E, cfg))))

    def allrows(self, E, cfg, c):
        return And(Forall([I], lambda i: Imp(frange(i, c), self.nodes(E, cfg, i)[0])),
                   Forall([I, I], lambda i, j: Imp(And(frange(i, c), frange(j, self.nodes(E, cfg, i)[1])), self.node(E, cfg, i, j)), lambda i, j: [k2(E, self.vecs[0][1], i, j)]))

    def rows(self, E, n, cfg, c):
        out = []
        for f, k in self.vecs:
            v = getattr(n, f)
            out += [("%s: one entry per node" % f, Forall([I], lambda i: Imp(frange(i, c), v.at(i).len == self.nodes(E, cfg, i)[1]), lambda i: [v.at(i).len])),
                    ("%s: as configured, in order" % f, Forall([I, I], lambda i, j: Imp(And(frange(i, c), frange(j, self.nodes(E, cfg, i)[1])), same(v.at(i).at(j), ep(E, cfg, k2(E, k, i, j))[1])), lambda i, j: [v.at(i).at(j).t[0]]))]
        return out

    def stored(self, E, o, n, cfg):
        c = self.clusters(E, cfg)
        return [("%s: one list per cluster" % f, Imp(self.on(o), getattr(n, f).len == c)) for f, _ in self.vecs] + [(nm, Imp(self.on(o), p)) for nm, p in self.rows(E, n, cfg, c)] + self.single(E, o, n, cfg) + [
            ("nothing for the other architecture", Imp(Not(self.on(o)), And(*[same(getattr(n, f), getattr(o, f)) for f, _ in self.vecs])))]

    def single(self, E, o, n, cfg):
        return []

    def inv(self, E, o, n, cfg, i):
        return []

    def loopcands(self, Lc):
        E, o, n, cfg = Lc.E, Lc.arg(0), Lc.cur_arg(0), Lc.arg(1)
        c = self.clusters(E, cfg)
        ints = [(nm, v.z) for nm, v, _ in Lc.locals(TInt)]
        for f, k in self.vecs:
            yield f + " length", getattr(n, f).len == c
        mods = [nm for nm, _, _ in Lc.modified_locals(TInt)]
        for nn, i in ints:
            yield "clusters " + nn, And(0 <= i, i <= c)
            yield "this cluster " + nn, i < c
            yield "all nodes so far " + nn, self.allrows(E, cfg, i)
            for nm, p in self.rows(E, n, cfg, i) + self.inv(E, o, n, cfg, i):
                yield nm + " so far " + nn, p
            for f, k in self.vecs:
                v = getattr(n, f)
                yield "%s empty from %s" % (f, nn), Forall([I], lambda k_: Imp(And(i <= k_, k_ < c), v.at(k_).len == 0), lambda k_: [v.at(k_).len])
                yield "%s empty after %s" % (f, nn), Forall([I], lambda k_: Imp(And(i < k_, k_ < c), v.at(k_).len == 0), lambda k_: [v.at(k_).len])
        for ni, i in ints:
            for nj, j in ints:
                if ni == nj or nj not in mods:
                    continue
                yield "nodes of this cluster %s %s" % (ni, nj), self.row_ok(E, cfg, i, j)
                yield "position %s %s" % (ni, nj), And(0 <= j, j <= self.nodes(E, cfg, i)[1])
                for f, k in self.vecs:
                    v = getattr(n, f)
                    yield "%s: this cluster %s %s" % (f, ni, nj), And(v.at(i).len == j, Forall([I], lambda m: Imp(frange(m, j), same(v.at(i).at(m), ep(E, cfg, k2(E, k, i, m))[1])), lambda m: [v.at(i).at(m).t[0]]))


class Locking(Nested):
    fn, short = N_ + "::read_shard_endpoints", "config::read_shard_endpoints"
    count, nk = "shard_count", "shard_node_count"
    vecs = (("m_locking_shard_raft_endpoints", "shard_raft_endpoint"), ("m_locking_shard_endpoints", "shard_endpoint"), ("m_locking_shard_readonly_endpoints", "shard_readonly_endpoint"))
    fields = fresh = tuple(f for f, _ in vecs)

    def on(self, o):
        return o.m_twophase_mode.z


class Coordinators(Nested):
    fn, short = N_ + "::read_coordinator_options", "config::read_coordinator_options"
    count, nk = "coordinator_count", "coordinator_node_count"
    vecs = (("m_coordinator_raft_endpoints", "coordinator_raft_endpoint"), ("m_coordinator_endpoints", "coordinator_endpoint"))
    fresh = tuple(f for f, _ in vecs)
    fields = fresh + ("m_coordinator_loglevels", "m_coordinator_max_threads")

    def levels(self, E, o, n, cfg, c):
        return ("log levels", appended(n.m_coordinator_loglevels, o.m_coordinator_loglevels, c, lambda i: lvl(E, cfg, K1(E, "coordinator_loglevel", i))))

    def single(self, E, o, n, cfg):
        return [self.levels(E, o, n, cfg, self.clusters(E, cfg)), ("m_coordinator_max_threads", n.m_coordinator_max_threads.z == numor(E, cfg, "coordinator_max_threads", o.m_coordinator_max_threads.z))]

    def inv(self, E, o, n, cfg, i):
        return [self.levels(E, o, n, cfg, i), ("levels with this", self.levels(E, o, n, cfg, i + 1)[1])]


class Raft(Section):
    fn, short = N_ + "::read_raft_options", "config::read_raft_options"
    small = (("m_election_timeout_upper", "election_timeout_upper"), ("m_election_timeout_lower", "election_timeout_lower"), ("m_heartbeat", "heartbeat"), ("m_snapshot_distance", "snapshot_distance"), ("m_raft_max_batch", "raft_max_batch"))
    fields = tuple(f for f, _ in small) + ("m_batch_size",)

    def stored(self, E, o, n, cfg):
        out = []
        for f, k in self.small:
            v = numor(E, cfg, k, getattr(o, f).z)
            out.append((f, Imp(And(0 <= v, v < 2 ** 31), getattr(n, f).z == v)))
        return out + [("m_batch_size", n.m_batch_size.z == numor(E, cfg, "batch_size", o.m_batch_size.z))]


class Loadgen(Section):
    fn, short = N_ + "::read_loadgen_options", "config::read_loadgen_options"
    nums = (("m_input_count", "loadgen_sendtx_input_count"), ("m_output_count", "loadgen_sendtx_output_count"), ("m_window_size", "window_size"), ("m_initial_mint_count", "initial_mint_count"),
            ("m_initial_mint_value", "initial_mint_value"), ("m_loadgen_count", "loadgen_count"))
    decs = (("m_invalid_rate", "loadgen_invalid_tx_rate"), ("m_fixed_tx_rate", "loadgen_fixed_tx_rate"))
    fields = tuple(f for f, _ in nums + decs) + ("m_fixed_tx_mode",)

    def stored(self, E, o, n, cfg):
        out = [(f, getattr(n, f).z == numor(E, cfg, k, getattr(o, f).z)) for f, k in self.nums]
        for f, k in self.decs:
            h, v = dec(E, cfg, lit(E, k))
            out.append((f, getattr(n, f).t[0] == If(h, v, getattr(o, f).t[0])))
        return out + [("fixed mode", n.m_fixed_tx_mode.z == And(n.m_input_count.z != 0, n.m_output_count.z != 0))]


SECTIONS = [Sentinels(), Locking(), Shards(), Atomizers(), Archivers(), Watchtowers(), Coordinators(), Raft(), Loadgen()]


def parsed(E, file):
    return ufv(E, "parsed", E.types.parse(Pq), [file])


class ReadOptions(Contract):
    fn, short = N_ + "::read_options", "config::read_options"

    def start(self, C):
        E = C.E
        cfg = parsed(E, C.arg(0).z)
        o = E.default_rec(E.types.parse(N_ + "::options"))
        h, v = num(E, cfg, lit(E, "2pc"))
        return cfg, set_field(o, "m_twophase_mode", bv(And(h, v != 0)))

    def ensures(self, C):
        E = C.E
        cfg, o = self.start(C)
        ok = C.ret.idx == 0
        n = C.ret.alt(0)
        out = [("options exactly if nothing needed is missing or malformed", ok == And(*[s.complete(E, o, cfg) for s in SECTIONS])),
               ("the architecture as configured", Imp(ok, n.m_twophase_mode.z == o.m_twophase_mode.z))]
        for s in SECTIONS:
            out += [("%s: %s" % (s.short.split("_")[1], nm), Imp(ok, f)) for nm, f in s.stored(E, o, n, cfg)]
        return out


class LoadOptions(ReadOptions):
    fn, short = N_ + "::load_options", "config::load_options"

    def ensures(self, C):
        E = C.E
        cfg, o = self.start(C)
        ok = C.ret.idx == 0
        n = C.ret.alt(0)
        return [("accepted options are complete", Imp(ok, And(*[s.complete(E, o, cfg) for s in SECTIONS]))), ("accepted options have what the architecture needs", Imp(ok, Not(bad(n))))] + [x for x in super().ensures(C)[1:]]


def bad(o):
    none = lambda f: getattr(o, f).len == 0
    thr, two = o.m_attestation_threshold.z, o.m_twophase_mode.z
    nkeys = card(o.m_sentinel_public_keys.t[0])
    bad2 = Or(none("m_sentinel_endpoints"), o.m_sentinel_endpoints.len < thr, none("m_locking_shard_endpoints"), none("m_coordinator_endpoints"))
    bad1 = Or(none("m_watchtower_client_endpoints"), none("m_archiver_endpoints"), none("m_atomizer_endpoints"), And(none("m_shard_endpoints"), Not(none("m_sentinel_endpoints"))))
    seed = Or(o.m_seed_from.z > o.m_seed_to.z, And(o.m_seed_from.z != o.m_seed_to.z, o.m_seed_value.z == 0))
    return Or(If(two, bad2, bad1), seed, nkeys < thr)


class Check(Contract):
    fn, short = N_ + "::check_options", "config::check_options"

    def ensures(self, C):
        return [("refused exactly if the architecture misses something", C.ret.has() == bad(C.arg(0)))]


class SeedRange(Contract):
    fn, short = N_ + "::loadgen_seed_range", "config::loadgen_seed_range"

    def requires(self, C):
        o = C.arg(0)
        return [("a load generator that exists", C.arg(1).z < o.m_loadgen_count.z), ("a seed range", o.m_seed_from.z <= o.m_seed_to.z), ("outputs for everyone", o.m_loadgen_count.z <= o.m_seed_to.z - o.m_seed_from.z)]

    def ensures(self, C):
        o, g, r = C.arg(0), C.arg(1).z, C.ret
        n = (o.m_seed_to.z - o.m_seed_from.z) / o.m_loadgen_count.z
        return [("an equal share, one after the other", And(r.first.z == o.m_seed_from.z + g * n, r.second.z == o.m_seed_from.z + (g + 1) * n - 1))]


class InRange(Contract):
    fn, short = N_ + "::hash_in_shard_range", "config::hash_in_shard_range"

    def ensures(self, C):
        b = hashbyte(C.E, C.arg(1).z, 0)
        return [("exactly the hashes whose first byte is in the range", C.ret.z == And(C.arg(0).first.z <= b, b <= C.arg(0).second.z))]


def parser_ctor(E, T, vals):
    """reading the file: a function of its name (and of the environment, which does not change)"""
    v = E.read(vals[0]) if isinstance(vals[0], Loc) else E.read(vals[0].loc) if isinstance(vals[0], Ref) else vals[0]
    if v.T == T:
        return v
    return parsed(E, v.z)


class Config(Unit):
    name = "config"
    externs = {"ctor": {Pq: parser_ctor}}
    sources = ["src/util/common/config.cpp"]
    contracts = [Find(), GetString(), GetUlong(), GetDecimal(), GetEndpoint(), GetLoglevel(), ParseLoglevel(), FromHex(), IsKey()] + [keyfn(n, 1) for n in KEYS1] + [keyfn(n, 2) for n in KEYS2] + [
        Check(), ReadOptions(), LoadOptions(), SeedRange(), InRange()] + SECTIONS


unit = Config()
