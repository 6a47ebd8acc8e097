"""bounded caches: cache_set, watchtower block_cache and error_cache"""
from units.common import *

CS = "cbdc::cache_set<std::array<unsigned char, 32>, cbdc::hashing::null>"
BC = "cbdc::watchtower::block_cache"
EC = "cbdc::watchtower::error_cache"


# ---- cache_set: the eviction queue lists the members, oldest first, each once ------------------
def cs_inv(s, E):
    q, S = s.m_eviction_queue, s.m_vals
    i_ = z3.Const("i_m", I)
    return [("members are queued", Forall([Hs], lambda x: Imp(S.has(x), z3.Exists([i_], And(frange(i_, q.len), q.at(i_).z == x))))),
            ("queued values are members", Forall([I], lambda i: Imp(frange(i, q.len), S.has(q.at(i).z)))),
            ("no value is queued twice", Forall([I, I], lambda i, j: Imp(And(0 <= i, i < j, j < q.len), q.at(i).z != q.at(j).z))),
            ("never more than the maximum", And(0 <= q.len, q.len <= s.m_max_size.z))]


class CsAdd(Contract):
    fn = CS + "::add"
    short = "cache_set::add"

    def modifies(self, C):
        return ["m_vals", "m_eviction_queue"]

    def ensures(self, C):
        x, q0, q, S0, S = C.arg(0).z, C.old.m_eviction_queue, C.this.m_eviction_queue, C.old.m_vals, C.this.m_vals
        full = q0.len == C.old.m_max_size.z
        new = Not(S0.has(x))
        d = If(full, z3.IntVal(1), z3.IntVal(0))
        room = C.old.m_max_size.z >= 1
        return [
            ("a cache without room stays empty", Imp(Not(room), And(q.len == 0, Forall([Hs], lambda y: Not(S.has(y)))))),
            ("answers whether the value is new", C.ret.z == new),
            ("a known value changes nothing", Imp(Not(new), And(veq(q, q0), Forall([Hs], lambda y: S.has(y) == S0.has(y))))),
            ("a new value is added, the oldest leaves only when full", Imp(And(new, room), And(q.len == q0.len + 1 - d, q.at(q.len - 1).z == x,
                                                                                      Forall([I], lambda i: Imp(And(0 <= i, i < q.len - 1), q.at(i).z == q0.at(i + d).z))))),
            ("members afterwards", Imp(And(new, room), Forall([Hs], lambda y: S.has(y) == Or(y == x, And(S0.has(y), Not(And(full, y == q0.at(0).z))))))),
        ]


class CsContains(Contract):
    fn = CS + "::contains"
    short = "cache_set::contains"

    def ensures(self, C):
        return [("exactly the members", C.ret.z == C.old.m_vals.has(C.arg(0).z))]


# ---- block_cache ---------------------------------------------------------------------------------
# Each id is created by at most one output and spent by at most one input over the whole history; the labels name the place:
# OB/OT/OI: sequence number of the block, transaction and position creating it; SB/ST/SI: of those spending it.
def lab(E, n, x):
    return E.uf("lbl_" + n, [x], I)


class BV:
    def __init__(self, s, E, hi):
        self.s, self.E, self.hi = s, E, hi
        self.q = s.m_blks
        self.lo = hi - self.q.len

    def blk(self, b):
        return self.q.at(b - self.lo)

    def created(self, x, hi=None):
        """x is an output of a retained block"""
        b, t, i = (lab(self.E, n, x) for n in ("OB", "OT", "OI"))
        txs = self.blk(b).m_transactions
        return And(self.lo <= b, b < self.hi, frange(t, txs.len), frange(i, txs.at(t).m_uhs_outputs.len), txs.at(t).m_uhs_outputs.at(i).z == x)

    def spent(self, x):
        b, t, i = (lab(self.E, n, x) for n in ("SB", "ST", "SI"))
        txs = self.blk(b).m_transactions
        return And(self.lo <= b, b < self.hi, frange(t, txs.len), frange(i, txs.at(t).m_inputs.len), txs.at(t).m_inputs.at(i).z == x)

    def ctx(self, x):
        b = self.blk(lab(self.E, "OB", x))
        return b.m_height.z, b.m_transactions.at(lab(self.E, "OT", x)).m_id.z

    def stx(self, x):
        b = self.blk(lab(self.E, "SB", x))
        return b.m_height.z, b.m_transactions.at(lab(self.E, "ST", x)).m_id.z


def labels(E, b, blk):
    """the ids of block number b carry the labels of their place; inputs were created earlier"""
    txs = blk.m_transactions
    o = lambda t, i: txs.at(t).m_uhs_outputs.at(i).z
    n = lambda t, i: txs.at(t).m_inputs.at(i).z
    return [
        ("outputs are created once, and not spent before the next block", Forall([I, I], lambda t, i: Imp(And(frange(t, txs.len), frange(i, txs.at(t).m_uhs_outputs.len)), And(
            lab(E, "OB", o(t, i)) == b, lab(E, "OT", o(t, i)) == t, lab(E, "OI", o(t, i)) == i, lab(E, "SB", o(t, i)) > b)))),
        ("inputs are spent once, and were created before this block", Forall([I, I], lambda t, i: Imp(And(frange(t, txs.len), frange(i, txs.at(t).m_inputs.len)), And(
            lab(E, "SB", n(t, i)) == b, lab(E, "ST", n(t, i)) == t, lab(E, "SI", n(t, i)) == i, lab(E, "OB", n(t, i)) < b)))),
    ]


def bc_inv(s, E, hi):
    v = BV(s, E, hi)
    U, S = s.m_unspent_ids, s.m_spent_ids
    h = lambda p: (p.first.z, p.second.z)
    b_ = lambda: None
    q = v.q
    o = lambda b, t, i: q.at(b).m_transactions.at(t).m_uhs_outputs.at(i).z
    n = lambda b, t, i: q.at(b).m_transactions.at(t).m_inputs.at(i).z
    go = lambda b, t, i: And(frange(b, q.len), frange(t, q.at(b).m_transactions.len), frange(i, q.at(b).m_transactions.at(t).m_uhs_outputs.len))
    gn = lambda b, t, i: And(frange(b, q.len), frange(t, q.at(b).m_transactions.len), frange(i, q.at(b).m_transactions.at(t).m_inputs.len))
    return [
        ("the spent index holds exactly the inputs of retained blocks", Forall([Hs], lambda x: S.has(x) == v.spent(x))),
        ("spent entries name block height and transaction", Forall([Hs], lambda x: Imp(S.has(x), And(h(S.at(x))[0] == v.stx(x)[0], h(S.at(x))[1] == v.stx(x)[1])))),
        ("the unspent index holds exactly the outputs of retained blocks not spent since", Forall([Hs], lambda x: U.has(x) == And(v.created(x), Not(v.spent(x))))),
        ("unspent entries name block height and transaction", Forall([Hs], lambda x: Imp(U.has(x), And(h(U.at(x))[0] == v.ctx(x)[0], h(U.at(x))[1] == v.ctx(x)[1])))),
        ("outputs carry their labels", Forall([I, I, I], lambda b, t, i: Imp(go(b, t, i), And(lab(E, "OB", o(b, t, i)) == v.lo + b, lab(E, "OT", o(b, t, i)) == t, lab(E, "OI", o(b, t, i)) == i, lab(E, "SB", o(b, t, i)) > v.lo + b)))),
        ("inputs carry their labels", Forall([I, I, I], lambda b, t, i: Imp(gn(b, t, i), And(lab(E, "SB", n(b, t, i)) == v.lo + b, lab(E, "ST", n(b, t, i)) == t, lab(E, "SI", n(b, t, i)) == i, lab(E, "OB", n(b, t, i)) < v.lo + b)))),
        ("at most the configured number of blocks", Imp(s.m_k_blks.z != 0, q.len <= s.m_k_blks.z)),
    ]


HI = z3.Const("blocks_pushed", I)


class PushBlock(Contract):
    fn = BC + "::push_block"
    short = "block_cache::push_block"
    inv = False

    def modifies(self, C):
        return ["m_blks", "m_best_blk_height", "m_unspent_ids", "m_spent_ids"]

    def requires(self, C):
        return bc_inv(C.this, C.E, HI) + labels(C.E, HI, C.arg(0)) + [("count", HI >= C.this.m_blks.len)]

    def ensures(self, C):
        q0, q, k = C.old.m_blks, C.this.m_blks, C.old.m_k_blks.z
        full = And(k != 0, q0.len == k)
        d = If(full, z3.IntVal(1), z3.IntVal(0))
        return bc_inv(C.this, C.E, HI + 1) + [
            ("the block is retained, the oldest leaves only when full", And(q.len == q0.len + 1 - d, same(q.at(q.len - 1), C.arg(0)),
                                                                                 Forall([I], lambda i: Imp(And(0 <= i, i < q.len - 1), same(q.at(i), q0.at(i + d)))))),
            ("best height is the highest seen", C.this.m_best_blk_height.z == If(C.arg(0).m_height.z > C.old.m_best_blk_height.z, C.arg(0).m_height.z, C.old.m_best_blk_height.z)),
        ]

    def loopcands(self, Lc):
        E = Lc.E
        s0, s = Lc.old, Lc.this
        if Lc.pos is None:
            return
        v0 = BV(s0, E, HI)
        U0, S0, U, S = s0.m_unspent_ids, s0.m_spent_ids, s.m_unspent_ids, s.m_spent_ids
        arg = Lc.arg(0)
        p = Lc.pos
        outer = [pp for en, pp in outer_pos(Lc)]
        T = outer[0] if outer else None
        pe = lambda a, b: And(a.first.z == b.first.z, a.second.z == b.second.z)
        front_ = v0.lo

        def before(bn, kind, t, i):
            """place (bn; t', i') of x comes before (t, i) in block bn"""
            c = "O" if kind == "out" else "S"
            return lambda x: And(lab(E, c + "B", x) == bn, Or(lab(E, c + "T", x) < t, And(lab(E, c + "T", x) == t, lab(E, c + "I", x) < i)))
        # eviction of the front block
        full = lambda m, m0, kind, t, i: Forall([Hs], lambda x: And(m.has(x) == And(m0.has(x), Not(before(front_, kind, t, i)(x))), Imp(m.has(x), pe(m.at(x), m0.at(x)))))
        t, i = (p, z3.IntVal(0)) if T is None else (T, p)
        for kind, m, m0 in (("in", S, S0), ("out", U, U0)):
            yield "evicted %s" % kind, full(m, m0, kind, t, i)
            yield "evicted %s at" % kind, full(m, m0, kind, t, z3.IntVal(0))
            if T is not None:
                yield "evicted %s next" % kind, full(m, m0, kind, T + 1, z3.IntVal(0))
        # indexing of the new block; e = state after eviction
        fullq = And(s0.m_k_blks.z != 0, s0.m_blks.len == s0.m_k_blks.z)
        keepS = lambda x: And(S0.has(x), Not(And(fullq, lab(E, "SB", x) == front_)))
        keepU = lambda x: And(U0.has(x), Not(And(fullq, lab(E, "OB", x) == front_)))
        txs = arg.m_transactions
        inn = lambda x: And(lab(E, "SB", x) == HI, frange(lab(E, "ST", x), txs.len), frange(lab(E, "SI", x), txs.at(lab(E, "ST", x)).m_inputs.len), txs.at(lab(E, "ST", x)).m_inputs.at(lab(E, "SI", x)).z == x)
        oun = lambda x: And(lab(E, "OB", x) == HI, frange(lab(E, "OT", x), txs.len), frange(lab(E, "OI", x), txs.at(lab(E, "OT", x)).m_uhs_outputs.len), txs.at(lab(E, "OT", x)).m_uhs_outputs.at(lab(E, "OI", x)).z == x)
        hh = arg.m_height.z
        for nm, ti, to in (("", (t, i), (t, i)), ("in", (t, i), (t, z3.IntVal(0))), ("out", (t + 1, z3.IntVal(0)), (t, i))):
            doneI = lambda x: And(inn(x), before(HI, "in", *ti)(x))
            doneO = lambda x: And(oun(x), before(HI, "out", *to)(x))
            yield "spent so far " + nm, Forall([Hs], lambda x: And(S.has(x) == Or(keepS(x), doneI(x)), Imp(S.has(x), If(doneI(x), And(S.at(x).first.z == hh, S.at(x).second.z == txs.at(lab(E, "ST", x)).m_id.z), pe(S.at(x), S0.at(x))))))
            yield "unspent so far " + nm, Forall([Hs], lambda x: And(U.has(x) == Or(And(keepU(x), Not(doneI(x))), doneO(x)), Imp(U.has(x), If(doneO(x), And(U.at(x).first.z == hh, U.at(x).second.z == txs.at(lab(E, "OT", x)).m_id.z), pe(U.at(x), U0.at(x))))))


def outer_pos(Lc):
    for rec, roots, entry in Lc.E.loopstack:
        if rec is not Lc.rec and getattr(rec, "posroot", None) is not None and rec.posroot in Lc.E.vars:
            yield getattr(rec, "enum", None), Lc.E.vars[rec.posroot].t[0]


class BcCheck(Contract):
    inv = False

    def ensures(self, C):
        m = C.old.m_spent_ids if self.fn.endswith("check_spent") else C.old.m_unspent_ids
        x, r = C.arg(0).z, C.ret
        return [("answers exactly from the index", And(r.has() == m.has(x), Imp(r.has(), And(r.val.first.z == m.at(x).first.z, r.val.second.z == m.at(x).second.z))))]


class BcBest(Contract):
    fn = BC + "::best_block_height"
    short = "block_cache::best_block_height"
    inv = False

    def ensures(self, C):
        return [("highest height seen", C.ret.z == C.old.m_best_blk_height.z)]


# ---- error_cache: errors are immutable objects named by their address; age(p) numbers the allocations in queue order (a label of object identity) ------
Pt = usort("P_tx_error")
DNE, SPENT = 1, 4


def age(E, p):
    return E.uf("age", [p], I)


def obj(E, T, p, nm):
    return Val(T, [E.uf("%s_%d" % (nm, i), [p], s) for i, s in enumerate(T.leaves())])


def err_of(E, p):
    return obj(E, E.types.parse("cbdc::watchtower::tx_error"), p, "tx_error")


def info_of(E, v):
    T = E.types.parse("cbdc::watchtower::tx_error_info", "cbdc::watchtower")
    return obj(E, T, v.m_info.t[0], "tx_error_info")


def conc(E, v, x):
    """error v concerns output id x"""
    i_ = z3.Const("i_d", I)
    w = info_of(E, v)
    alts = [i for i, t in enumerate(w.T.ts)]
    out = []
    for i, t in enumerate(w.T.ts):
        if t.q.endswith("inputs_dne"):
            L = w.alt(i).m_input_uhs_ids
            out.append(And(w.idx == i, z3.Exists([i_], And(frange(i_, L.len), L.at(i_).z == x))))
        elif t.q.endswith("inputs_spent"):
            out.append(And(w.idx == i, w.alt(i).m_input_uhs_ids.has(x)))
    return Or(*out)


def concerns(E, p, x):
    return E.uf("concerns", [p, x], z3.BoolSort())


def def_concerns(E):
    """a named abbreviation: concerns(p, x) is conc(error at p, x)"""
    return [Forall([Pt, Hs], lambda p, x: concerns(E, p, x) == conc(E, err_of(E, p), x), lambda p, x: [concerns(E, p, x)])]


def heap_err(E, p):
    return err_of(E, p.t[0])


def heap_info(E, p):
    T = E.types.parse("cbdc::watchtower::tx_error_info", "cbdc::watchtower")
    v = obj(E, T, p.t[0], "tx_error_info")
    E.wf(v)
    return v


def make_err(E, T, args, e, f):
    v = lib.argv(E, args[0], f, E.types.parse("cbdc::watchtower::tx_error"))
    p = E.fresh_val(T, "new")
    o = err_of(E, p.t[0])
    E.assume(And(*[a == b for a, b in zip(o.t, v.t)]))
    E.assume(p.t[0] != E.nullconst(T))
    q = E.vars["this"].m_errs
    E.assume(Imp(q.len > 0, age(E, p.t[0]) == age(E, q.at(q.len - 1).t[0]) + 1))
    E.assume(Forall([I], lambda i: Imp(frange(i, q.len), q.at(i).t[0] != p.t[0])))
    return p


def ec_inv(s, E):
    q, U, T = s.m_errs, s.m_uhs_errs, s.m_tx_id_errs
    i_ = z3.Const("i_q", I)
    p = lambda i: q.at(i).t[0]
    retained = lambda y: And(frange(age(E, y) - age(E, p(0)), q.len), p(age(E, y) - age(E, p(0))) == y)
    return [
        ("errors are queued oldest first", Forall([I], lambda i: Imp(frange(i, q.len), age(E, p(i)) == age(E, p(0)) + i))),
        ("errors indexed by output id are retained", Forall([Hs], lambda x: Imp(U.has(x), retained(U.at(x).t[0])))),
        ("errors indexed by transaction id are retained", Forall([Hs], lambda x: Imp(T.has(x), retained(T.at(x).t[0])))),
        ("an output id finds an error that concerns it", Forall([Hs], lambda x: Imp(U.has(x), concerns(E, U.at(x).t[0], x)))),
        ("a transaction id finds its error", Forall([Hs], lambda x: Imp(T.has(x), err_of(E, T.at(x).t[0]).m_tx_id.z == x))),
        ("every output id finds the newest error that concerns it", Forall([I, Hs], lambda i, x: Imp(And(frange(i, q.len), concerns(E, p(i), x)), And(U.has(x), age(E, U.at(x).t[0]) >= age(E, p(i)))))),
        ("every transaction id finds its newest error", Forall([I], lambda i: Imp(frange(i, q.len), And(T.has(err_of(E, p(i)).m_tx_id.z), age(E, T.at(err_of(E, p(i)).m_tx_id.z).t[0]) >= age(E, p(i)))))),
        ("at most the configured number of errors", Imp(s.m_k_errs.z != 0, q.len <= s.m_k_errs.z)),
    ]


class PushErrors(Contract):
    fn = EC + "::push_errors"
    short = "error_cache::push_errors"

    def modifies(self, C):
        return ["m_errs", "m_uhs_errs", "m_tx_id_errs"]

    def seq(self, E, q0, q, k, L, n):
        """the queue after n of the errors L"""
        d = If(And(k != 0, q0.len + n > k), q0.len + n - k, z3.IntVal(0))
        ev = lambda i: err_of(E, q.at(i).t[0])
        return And(q.len == q0.len + n - d,
                   Forall([I], lambda i: Imp(frange(i, q.len), If(i + d < q0.len, same(q.at(i), q0.at(i + d)), And(*[a == b for a, b in zip(ev(i).t, L.at(i + d - q0.len).t)])))))

    def ensures(self, C):
        return [("keeps exactly the most recent errors, oldest first", self.seq(C.E, C.old.m_errs, C.this.m_errs, C.old.m_k_errs.z, C.arg(0), C.arg(0).len))]

    def loopcands(self, Lc):
        E = Lc.E
        if Lc.pos is None:
            return
        if not any(True for _ in outer_pos(Lc)):
            yield from ec_inv(Lc.this, E)
            yield "so far", self.seq(E, Lc.old.m_errs, Lc.this.m_errs, Lc.old.m_k_errs.z, Lc.arg(0), Lc.pos)
            L, L0 = Lc.cur_arg(0), Lc.arg(0)
            yield "rest", Forall([I], lambda i: Imp(And(Lc.pos <= i, i < L0.len), same(L.at(i), L0.at(i))))
            yield "size", L.len == L0.len
            return
        U, U0 = Lc.this.m_uhs_errs, Lc.at_entry.m_uhs_errs
        q = Lc.this.m_errs
        new, old = q.at(q.len - 1).t[0], q.at(0).t[0]
        en, p = Lc.enum, Lc.pos
        if isinstance(en.T, TSet):
            done = Lc.visited
        else:
            j_ = z3.Const("j_v", I)
            done = lambda x: z3.Exists([j_], And(0 <= j_, j_ < p, en.cval.at(j_).z == x))
        yield "forgotten so far", Forall([Hs], lambda x: And(U.has(x) == And(U0.has(x), Not(And(done(x), U0.at(x).t[0] == old))), Imp(U.has(x), U.at(x).t[0] == U0.at(x).t[0])))
        yield "recorded so far", Forall([Hs], lambda x: And(U.has(x) == Or(U0.has(x), done(x)), Imp(U.has(x), U.at(x).t[0] == If(done(x), new, U0.at(x).t[0]))))


class EcCheck(Contract):
    def ensures(self, C):
        E = C.E
        m = C.old.m_tx_id_errs if self.fn.endswith("tx_id") else C.old.m_uhs_errs
        x, r = C.arg(0).z, C.ret
        return [("answers exactly from the index", And(r.has() == m.has(x), Imp(r.has(), And(*[a == b for a, b in zip(r.val.t, err_of(E, m.at(x).t[0]).t)]))))]


class Caches(Unit):
    name = "caches"
    sources = ["src/uhs/twophase/locking_shard/locking_shard.cpp", "src/uhs/atomizer/watchtower/block_cache.cpp", "src/uhs/atomizer/watchtower/error_cache.cpp", "src/uhs/atomizer/watchtower/tx_error_messages.cpp"]
    contracts = [CsAdd(), CsContains(), PushBlock(), BcCheck(fn=BC + "::check_unspent"), BcCheck(fn=BC + "::check_spent"), BcBest(),
                 PushErrors(), EcCheck(fn=EC + "::check_tx_id"), EcCheck(fn=EC + "::check_uhs_id")]
    invariants = {CS: cs_inv, EC: ec_inv}
    def axioms(self, E):
        return def_concerns(E)

    externs = {"heap": {"P_tx_error": heap_err, "P_tx_error_info": heap_info}, "make": {"P_tx_error": make_err}}
    opts = {"closed_all_enums": True, "guards": {"m_vals": "m_mut", "m_eviction_queue": "m_mut"}}


unit = Caches()
