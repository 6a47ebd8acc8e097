"""atomizer: src/uhs/atomizer/atomizer/atomizer.cpp

Transactions of equal id are equal (the id commits to the content); tx_error objects are immutable records behind a shared pointer."""
from units.common import *
from units.caches import obj, err_of, info_of, heap_err, heap_info

A = "cbdc::atomizer::atomizer"
SYNC, DNE, RANGE, INCOMPLETE, SPENT = 0, 1, 2, 3, 4


def make_info(E, T, args, e, f):
    IT = E.types.parse("cbdc::watchtower::tx_error_info", "cbdc::watchtower")
    v = lib.argv(E, args[0], f, IT)
    p = E.fresh_val(T, "info")
    o = obj(E, IT, p.t[0], "tx_error_info")
    v = E.coerce(v, IT)
    E.assume(And(*[a == b for a, b in zip(o.t, v.t)]))
    E.assume(p.t[0] != E.nullconst(T))
    return p


def ainv(s, E):
    D = s.m_spent_cache_depth.z
    return [
        ("one spent cache per offset", s.m_spent.len == D + 1),
        ("one pending map per offset", s.m_txs.len == D + 1),
        ("pending transactions are stored under their id", Forall([I, Hs], lambda o, x: Imp(And(frange(o, s.m_txs.len), s.m_txs.at(o).has(x)), And(leafeq(s.m_txs.at(o).keyobj(x), canon(E, x)), canon(E, x).m_id.z == x)))),
    ]


TXT = "cbdc::transaction::compact_tx"


def canon(E, x):
    """the transaction an id stands for"""
    T = E.types.parse(TXT)
    return Val(T, [E.uf("tx_%d" % i, [x], s) for i, s in enumerate(T.leaves())])


def leafeq(a, b):
    return And(*[x == y for x, y in zip(a.t, b.t)])


def spent_in(s, x, off):
    """x is in a spent cache at an offset up to off"""
    o_ = z3.Const("o_s", I)
    return z3.Exists([o_], And(0 <= o_, o_ <= off, s.m_spent.at(o_).has(x)))


def isin(L, x):
    i_ = z3.Const("i_in", I)
    return z3.Exists([i_], And(frange(i_, L.len), L.at(i_).z == x))


def offset(s, bh):
    """how far back height bh lies; out of range when it lies in the future"""
    return If(bh <= s.m_best_height.z, s.m_best_height.z - bh, TOP + s.m_best_height.z - bh)


TOP = z3.IntVal(2 ** 64)


def is_spent_err(E, err, tx, s, off):
    w = info_of(E, err)
    S = w.alt(SPENT).m_input_uhs_ids
    return And(err.m_tx_id.z == tx.m_id.z, w.idx == SPENT, Forall([Hs], lambda x: S.has(x) == And(isin(tx.m_inputs, x), spent_in(s, x, off))))


def is_err(E, err, tx, kind):
    return And(err.m_tx_id.z == tx.m_id.z, info_of(E, err).idx == kind)


def spent_plus(s0, s1, tx):
    """the newest spent cache gains exactly tx's inputs"""
    return And(s1.m_spent.len == s0.m_spent.len,
               Forall([Hs], lambda x: s1.m_spent.at(0).has(x) == Or(s0.m_spent.at(0).has(x), isin(tx.m_inputs, x))),
               Forall([I], lambda o: Imp(And(1 <= o, o < s0.m_spent.len), same(s1.m_spent.at(o), s0.m_spent.at(o)))))


def appended(q0, q, tx):
    return And(q.len == q0.len + 1, same(q.at(q0.len), tx), Forall([I], lambda i: Imp(frange(i, q0.len), same(q.at(i), q0.at(i)))))


class InsertComplete(Contract):
    fn = A + "::insert_complete"
    short = "atomizer::insert_complete"

    def modifies(self, C):
        return ["m_spent", "m_complete_txs"]

    def ensures(self, C):
        E, s0, s, tx = C.E, C.old, C.this, C.arg(1)
        D = s0.m_spent_cache_depth.z
        off = offset(s0, C.arg(0).z)
        none = tx.m_inputs.len == 0
        late = And(off > D, Not(none))
        unchanged = And(same(s.m_spent, s0.m_spent), same(s.m_complete_txs, s0.m_complete_txs))
        r = C.ret
        j_ = z3.Const("j_d", I)
        dbl = z3.Exists([j_], And(frange(j_, tx.m_inputs.len), spent_in(s0, tx.m_inputs.at(j_).z, off)))
        return [
            ("too old or from the future: rejected with a range error", Imp(late, And(r.has(), is_err(E, r.val, tx, RANGE), unchanged))),
            ("an input spent within the window: rejected, naming exactly the spent inputs", Imp(And(Not(late), dbl), And(r.has(), is_spent_err(E, r.val, tx, s0, off), unchanged))),
            ("otherwise accepted", Imp(And(Not(late), Not(dbl)), And(Not(r.has()), appended(s0.m_complete_txs, s.m_complete_txs, tx)))),
            ("an accepted transaction's inputs become spent", Imp(And(Not(late), Not(dbl)), spent_plus(s0, s, tx))),
        ]


def outer_ints(Lc):
    """counters of enclosing loops"""
    out = []
    for rec, roots, entry in Lc.E.loopstack:
        out += [Lc.nm(r) for r, _ in rec.writes if r in Lc.E.vars and isinstance(Lc.E.vars[r], Val) and isinstance(Lc.E.vars[r].T, TInt)]
    return out


def stxo_cands(Lc, tx, s0):
    E = Lc.E
    L = tx.m_inputs
    for nm, S, S0 in Lc.modified_locals(TSet):
        if keysort(S.T.k) != Hs:
            continue
        if Lc.pos is not None and Lc.enum is not None and isinstance(Lc.enum.T, TVec) and Lc.enum.T.t.leaves() == [Hs]:
            yield "the inputs (%s)" % nm, leafeq(Lc.enum.cval, L)
        for om, o, _0 in Lc.locals(TInt):
            if om not in [n for n, _1, _2 in Lc.modified_locals(TInt)] + outer_ints(Lc):
                continue
            o = o.z
            o_, i_ = z3.Const("o_b", I), z3.Const("i_b", I)
            below = lambda x: z3.Exists([o_], And(0 <= o_, o_ < o, s0.m_spent.at(o_).has(x)))
            yield "spent before %s (%s)" % (om, nm), Forall([Hs], lambda x: S.has(x) == And(isin(L, x), below(x)))
            yield "spent inputs found %s (%s)" % (om, nm), Forall([I, I], lambda i, k: Imp(And(frange(i, L.len), 0 <= k, k < o, s0.m_spent.at(k).has(L.at(i).z)), S.has(L.at(i).z)))
            if Lc.pos is not None:
                seen = lambda x: z3.Exists([i_], And(frange(i_, Lc.pos), L.at(i_).z == x))
                yield "spent so far %s (%s)" % (om, nm), Forall([Hs], lambda x: S.has(x) == Or(And(isin(L, x), below(x)), And(seen(x), s0.m_spent.at(o).has(x))))


InsertComplete.loopcands = lambda self, Lc: stxo_cands(Lc, Lc.arg(1), Lc.old)


class MakeBlock(Contract):
    fn = A + "::make_block"
    short = "atomizer::make_block"

    def requires(self, C):
        return [("height does not pass 2^64", C.this.m_best_height.z < TOP - 1)]

    def modifies(self, C):
        return ["m_spent", "m_txs", "m_complete_txs", "m_best_height"]

    def ensures(self, C):
        E, s0, s = C.E, C.old, C.this
        D = s0.m_spent_cache_depth.z
        blk, errs = C.ret.first, C.ret.second
        exp = s0.m_txs.at(D)
        i_ = z3.Const("i_e", I)
        return [
            ("the block holds exactly the accepted transactions, in order", same(blk.m_transactions, s0.m_complete_txs)),
            ("at the next height", And(blk.m_height.z == s0.m_best_height.z + 1, s.m_best_height.z == s0.m_best_height.z + 1)),
            ("nothing stays accepted", s.m_complete_txs.len == 0),
            ("spent inputs age by one block", And(s.m_spent.len == D + 1, Forall([Hs], lambda x: Not(s.m_spent.at(0).has(x))),
                                                  Forall([I, Hs], lambda o, x: Imp(And(1 <= o, o <= D), s.m_spent.at(o).has(x) == s0.m_spent.at(o - 1).has(x))))),
            ("pending notifications age by one block", And(s.m_txs.len == D + 1, Forall([Hs], lambda x: Not(s.m_txs.at(0).has(x))),
                                                           Forall([I], lambda o: Imp(And(1 <= o, o <= D), same(s.m_txs.at(o), s0.m_txs.at(o - 1)))))),
            ("an error for every notification that expires", Forall([Hs], lambda x: Imp(exp.has(x), z3.Exists([i_], And(frange(i_, errs.len), errs.at(i_).m_tx_id.z == x))))),
            ("and for no other", Forall([I], lambda i: Imp(frange(i, errs.len), And(exp.has(errs.at(i).m_tx_id.z), info_of(E, errs.at(i)).idx == INCOMPLETE)))),
            ("one each", Forall([I, I], lambda i, j: Imp(And(frange(i, errs.len), frange(j, errs.len), errs.at(i).m_tx_id.z == errs.at(j).m_tx_id.z), i == j))),
        ]

    def loopcands(self, Lc):
        E, s0, s = Lc.E, Lc.old, Lc.this
        D = s0.m_spent_cache_depth.z
        for nm, L, L0 in Lc.modified_locals(TVec):
            if Lc.pos is None:
                continue
            en = Lc.enum
            yield "errors so far(%s)" % nm, And(L.len == Lc.pos, Forall([I], lambda i: Imp(frange(i, Lc.pos), And(info_of(E, L.at(i)).idx == INCOMPLETE, L.at(i).m_tx_id.z == en.ord[i]))))
        for nm, v, _0 in Lc.locals(TInt):
            i = v.z
            yield "caches(%s)" % nm, And(0 <= i, i <= D, s.m_spent.len == D + 1, s.m_txs.len == D + 1)
            yield "aged spent(%s)" % nm, Forall([I], lambda o: Imp(And(i < o, o <= D), same(s.m_spent.at(o), s0.m_spent.at(o - 1))))
            yield "aged txs(%s)" % nm, Forall([I], lambda o: Imp(And(i < o, o <= D), same(s.m_txs.at(o), s0.m_txs.at(o - 1))))
            yield "rest spent(%s)" % nm, Forall([I], lambda o: Imp(And(0 <= o, o < i), same(s.m_spent.at(o), s0.m_spent.at(o))))
            yield "rest txs(%s)" % nm, Forall([I], lambda o: Imp(And(0 <= o, o < i), same(s.m_txs.at(o), s0.m_txs.at(o))))


W, OLD, OFF = z3.Const("attested", z3.ArraySort(I, B)), z3.Const("oldest", I), z3.Const("at_offset", I)


class Insert(Contract):
    fn = A + "::insert"
    short = "atomizer::insert"

    def modifies(self, C):
        return ["m_spent", "m_txs", "m_complete_txs"]

    def view(self, E, s0, tx, atts):
        """pending notifications of the transaction once this one is merged in: has1(o), att1(o, a)"""
        x = tx.m_id.z
        P = s0.m_txs
        has1 = lambda o: Or(P.at(o).has(x), o == OFF)
        att1 = lambda o, a: Or(And(P.at(o).has(x), P.at(o).at(x).has(a)), And(o == OFF, atts.has(a)))
        return has1, att1

    def requires(self, C):
        E, s, tx, atts = C.E, C.this, C.arg(1), C.arg(2)
        D = s.m_spent_cache_depth.z
        has1, att1 = self.view(E, s, tx, atts)
        o_ = z3.Const("o_w", I)
        S = z3.Const("S_w", z3.ArraySort(I, B))
        a_ = z3.Const("a_w", I)
        off = offset(s, C.arg(0).z)
        return [
            ("the id stands for the transaction", leafeq(tx, canon(E, tx.m_id.z))),
            ("ghost: the offset notified", OFF == If(off > D, D, off)),
            ("ghost: the attestations received", And(Forall([I], lambda a: W[a] == z3.Exists([o_], And(0 <= o_, o_ <= D, att1(o_, a)))),
                                                     z3.ForAll([S], Imp(z3.ForAll([a_], S[a_] == W[a_]), card(S) == card(W)), patterns=[card(S)]))),
            ("ghost: the oldest offset notified", And(0 <= OLD, OLD <= D, has1(OLD), Forall([I], lambda o: Imp(And(OLD < o, o <= D), Not(has1(o)))))),
        ]

    def ensures(self, C):
        E, s0, s, tx, atts = C.E, C.old, C.this, C.arg(1), C.arg(2)
        D, x, r = s0.m_spent_cache_depth.z, tx.m_id.z, C.ret
        off = offset(s0, C.arg(0).z)
        late = And(off > D, Not(tx.m_inputs.len == 0))
        full = card(W) == tx.m_inputs.len
        j_ = z3.Const("j_d", I)
        dbl = z3.Exists([j_], And(frange(j_, tx.m_inputs.len), spent_in(s0, tx.m_inputs.at(j_).z, OLD)))
        has1, att1 = self.view(E, s0, tx, atts)
        P0, P = s0.m_txs, s.m_txs
        others = And(P.len == P0.len, Forall([I, Hs], lambda o, y: Imp(And(0 <= o, o <= D, y != x), And(P.at(o).has(y) == P0.at(o).has(y), Imp(P.at(o).has(y), same(P.at(o).at(y), P0.at(o).at(y)))))))
        merged = Forall([I], lambda o: Imp(And(0 <= o, o <= D), P.at(o).has(x) == has1(o)))
        mergeda = Forall([I, I], lambda o, a: Imp(And(0 <= o, o <= D, has1(o)), P.at(o).at(x).has(a) == att1(o, a)))
        quiet = And(same(s.m_spent, s0.m_spent), same(s.m_complete_txs, s0.m_complete_txs))
        acc = And(Not(late), full, Not(dbl))
        return [
            ("too old or from the future: rejected with a range error, no effect", Imp(late, And(r.has(), is_err(E, r.val, tx, RANGE), quiet, same(P, P0)))),
            ("notifications of other transactions are untouched", others),
            ("incomplete: remembered, nothing accepted", Imp(And(Not(late), Not(full)), And(Not(r.has()), quiet))),
            ("not accepted: the notification is merged", Imp(And(Not(late), Not(acc)), merged)),
            ("not accepted: with its attestations", Imp(And(Not(late), Not(acc)), mergeda)),
            ("complete but an input spent within the window: rejected, naming exactly the spent inputs", Imp(And(Not(late), full, dbl), And(r.has(), is_spent_err(E, r.val, tx, s0, OLD), quiet))),
            ("complete and unspent: accepted", Imp(acc, And(Not(r.has()), appended(s0.m_complete_txs, s.m_complete_txs, tx)))),
            ("an accepted transaction's inputs become spent", Imp(acc, spent_plus(s0, s, tx))),
            ("an accepted transaction is no longer pending", Imp(acc, Forall([I], lambda o: Imp(And(0 <= o, o <= D), Not(P.at(o).has(x)))))),
        ]

    def loopcands(self, Lc):
        E, s0, s, tx = Lc.E, Lc.old, Lc.this, Lc.arg(1)
        e = Lc.at_entry
        x, D = tx.m_id.z, s0.m_spent_cache_depth.z
        has1, att1 = self.view(E, s0, tx, Lc.arg(2))
        yield from stxo_cands(Lc, tx, s0)
        P, P0 = s.m_txs, s0.m_txs
        mod = [n for n, _1, _2 in Lc.modified_locals(TInt)]
        storage = Lc.pos is not None and Lc.enum is not None and isinstance(Lc.enum.T, TMap) and isinstance(Lc.enum.T.v, TIterK)
        # facts established before the loop
        if not storage:
            yield "merged", And(P.len == P0.len, Forall([I], lambda o: Imp(And(0 <= o, o <= D), P.at(o).has(x) == has1(o))))
            yield "merged attestations", Forall([I, I], lambda o, a: Imp(And(0 <= o, o <= D, has1(o)), P.at(o).at(x).has(a) == att1(o, a)))
            yield "merged key", Forall([I], lambda o: Imp(And(0 <= o, o <= D, has1(o)), leafeq(P.at(o).keyobj(x), tx)))
            yield "others kept", Forall([I, Hs], lambda o, y: Imp(And(0 <= o, o <= D, y != x), And(P.at(o).has(y) == P0.at(o).has(y), Imp(P.at(o).has(y), same(P.at(o).at(y), P0.at(o).at(y))))))
        for nm, w, _0 in Lc.locals(TInt):
            if nm not in mod and nm not in ("block_height", "height_offset"):
                yield "ghost oldest(%s)" % nm, w.z == OLD
        for nm, S, _0 in Lc.locals(TSet):
            if S.T.k == TInt(32, False) and nm != "attestations":
                yield "ghost attestations(%s)" % nm, And(Forall([I], lambda a: S.has(a) == W[a]), card(S.dom) == card(W))
        for om, o, _0 in Lc.modified_locals(TInt):
            o = o.z
            o_ = z3.Const("o_a", I)
            yield "offsets(%s)" % om, And(0 <= o, o <= D + 1)
            for nm, S, S0 in Lc.modified_locals(TSet):
                if S.T.k == TInt(32, False):
                    yield "attested before(%s, %s)" % (om, nm), Forall([I], lambda a: S.has(a) == z3.Exists([o_], And(0 <= o_, o_ < o, att1(o_, a))))
            for nm, m, m0 in Lc.modified_locals(TMap):
                if isinstance(m.T.v, TIterK):
                    yield "found before(%s, %s)" % (om, nm), Forall([I], lambda k: And(m.has(k) == And(0 <= k, k < o, has1(k)), Imp(m.has(k), And(m.at(k).t[0] == x, m.at(k).t[1] == home(), m.at(k).t[2] == k, Not(m.at(k).t[3])))))
            for nm, w, w0 in Lc.modified_locals(TInt):
                if nm != om:
                    w = w.z
                    yield "oldest before(%s, %s)" % (om, nm), Or(And(w == 0, Forall([I], lambda k: Imp(And(0 <= k, k < o), Not(has1(k))))),
                                                               And(0 <= w, w < o, has1(w), Forall([I], lambda k: Imp(And(w < k, k < o), Not(has1(k))))))
        if storage:
            P0, vis = e.m_txs, Lc.visited
            yield "removed so far", And(P.len == P0.len, Forall([I, Hs], lambda o, y: Imp(And(0 <= o, o <= D), P.at(o).has(y) == And(P0.at(o).has(y), Not(And(y == x, vis(o)))))))
            yield "values kept", Forall([I, Hs], lambda o, y: Imp(And(0 <= o, o <= D, P0.at(o).has(y)), And(same(P.at(o).at(y), P0.at(o).at(y)), same(P.at(o).keyobj(y), P0.at(o).keyobj(y)))))
            q0, q = e.m_complete_txs, s.m_complete_txs
            yield "accepted so far", If(vis(OLD), appended(q0, q, tx), same(q, q0))


def home():
    from engine import iter_home
    return iter_home(Loc("this", [("f", "m_txs"), ("i", z3.IntVal(0))]))[0]


class Height(Contract):
    fn = A + "::height"
    short = "atomizer::height"

    def ensures(self, C):
        return [("the best height", C.ret.z == C.old.m_best_height.z)]


class Pending(Contract):
    fn = A + "::pending_transactions"
    short = "atomizer::pending_transactions"

    def ensures(self, C):
        return [("the number accepted for the next block", C.ret.z == C.old.m_complete_txs.len)]


class Ctor(Contract):
    fn = A + "::atomizer"
    short = "atomizer::atomizer"

    def requires(self, C):
        return [("depth below 2^62", C.arg(1).z < 2 ** 62)]

    def ensures(self, C):
        s, D = C.this, C.arg(1).z
        return [("empty at the given height", And(s.m_best_height.z == C.arg(0).z, s.m_spent_cache_depth.z == D, s.m_complete_txs.len == 0,
                                                  Forall([I, Hs], lambda o, x: Imp(frange(o, D + 1), And(Not(s.m_spent.at(o).has(x)), Not(s.m_txs.at(o).has(x)))))))]


class AtomizerU(Unit):
    name = "atomizer"
    sources = ["src/uhs/atomizer/atomizer/atomizer.cpp", "src/uhs/atomizer/watchtower/tx_error_messages.cpp"]
    keyproj = {"cbdc::transaction::compact_tx": "m_id"}
    eqproj = {"cbdc::transaction::compact_tx": "m_id"}
    ptr_alias = {"std::variant<cbdc::watchtower::tx_error_sync": "tx_error_info"}
    contracts = [Ctor(), Insert(), InsertComplete(), MakeBlock(), Height(), Pending()]
    invariants = {A: ainv}
    externs = {"heap": {"P_tx_error": heap_err, "P_tx_error_info": heap_info}, "make": {"P_tx_error_info": make_info}}
    opts = {"closed_all_enums": True}


unit = AtomizerU()
