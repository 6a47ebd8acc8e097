"""coordinator::distributed_tx: src/uhs/twophase/coordinator/distributed_tx.cpp

The shards and the replication callbacks are the environment: what a shard answers is arbitrary; what it is asked is recorded in ghost state
(lockn/applyn/discn: requests made to shard i) and every request must be one the protocol allows at that point."""
from units.common import *

D = "cbdc::coordinator::distributed_tx"
START, PREPARE, COMMIT, DISCARD, DONE, FAILED = range(6)
P = usort("P_interface")
AI = z3.ArraySort(I, I)
TXT = "cbdc::transaction::compact_tx"
VB = TVec(TBool())
OVB = TOpt(VB)


class TCount(TOpaque):
    """requests made so far, by shard"""
    def __init__(self):
        self.sort = AI
        self.sortname = self.name = "count"

    def leaves(self):
        return [self.sort]


def cnt(E, n):
    return E.vars["g:" + n].t[0]


def ix(E, h):
    return E.uf("shard_index", [h.t[0]], I)


def inr(E, h, x):
    return E.uf("in_range", [h, x], B)


def concerns(E, h, tx):
    return E.uf("concerned", [h] + list(tx.t), B)


def lockres(E, i):
    return Val(OVB, [E.uf("lock_answer_%d" % k, [i], s) for k, s in enumerate(OVB.leaves())])


def applyok(E, i):
    return E.uf("apply_answer", [i], B)


def discok(E, i):
    return E.uf("discard_answer", [i], B)


def dec(E, t):
    return E.uf("decision", [t], B)


CB = {"prep": "m_prepare_cb", "commit": "m_commit_cb", "disc": "m_discard_cb", "done": "m_done_cb"}


def cbok(n):
    return z3.Const("cb_%s_ok" % n, B)


def fresh_phase(s):
    """execution starts with locking (nothing recovered past it)"""
    return Or(s.m_state.z == START, s.m_state.z == PREPARE)


# where this execution started (fixed at execute())
BEGUN, RECC, RECD = z3.Bools("started_fresh started_at_commit started_at_discard")


def part(s, i):
    """shard i takes part"""
    return And(frange(i, s.m_shards.len), Or(s.m_tx_idxs.at(i).len > 0, RECD))


def isset(E, s, n):
    v = field(s, CB[n])
    return v.t[0] != E.nullconst(v.T)


def done_cb_ok(E, s, n):
    """the callback, if registered, has been called and succeeded"""
    return Imp(isset(E, s, n), And(E.vars["g:n_" + n].z == 1, cbok(n)))


def locked_all(E, s, lk):
    return Forall([I], lambda i: Imp(part(s, i), And(lk[i] == 1, lockres(E, i).has())), pats=lambda i: [lk[i]])


def ap_all(E, s, c):
    return Forall([I], lambda i: Imp(part(s, i), And(c[i] == 1, applyok(E, i))), pats=lambda i: [c[i]])


def di_all(E, s, c):
    return Forall([I], lambda i: Imp(part(s, i), And(c[i] == 1, discok(E, i))), pats=lambda i: [c[i]])


def zero(c):
    return Forall([I], lambda i: c[i] == 0, pats=lambda i: [c[i]])


def bump(E, n, i):
    c = cnt(E, n)
    E.set_root("g:" + n, Val(TCount(), [z3.Store(c, i, c[i] + 1)]))


def pre(E):
    return E.pre_vars["this"]


def vals(E, args, f, Ts):
    out = []
    for a, T in zip(args, Ts):
        v = E.ev(a, f) if not isinstance(a, Val) else a
        if isinstance(v, Ref):
            v = E.read(v.loc)
        if isinstance(v, Loc):
            v = E.read(v)
        out.append(E.coerce(v, T))
    return out


def h_lock(E, p, args, e, f):
    if isinstance(p, Loc):
        p = E.read(p)
    s = pre(E)
    h = E.fresh(I, "shard")
    E.assume(h == ix(E, p))
    txs, d = vals(E, args, f, [s.m_txs.at(z3.IntVal(0)).T, s.m_dtx_id.T])
    E.oblige("a shard is asked to lock only when it takes part, and once", "post", And(part(s, h), cnt(E, "lockn")[h] == 0), e)
    E.oblige("locking starts from the start or prepare phase, after the transactions were persisted", "post", And(BEGUN, done_cb_ok(E, s, "prep")), e)
    E.oblige("a shard is asked to lock exactly its transactions, for this dtx", "post", And(same(txs, s.m_txs.at(h)), d.z == s.m_dtx_id.z), e)
    bump(E, "lockn", h)
    r = lockres(E, h)
    E.wf(r)
    return r


def h_apply(E, p, args, e, f):
    if isinstance(p, Loc):
        p = E.read(p)
    s = pre(E)
    h = E.fresh(I, "shard")
    E.assume(h == ix(E, p))
    fl, d = vals(E, args, f, [VB, s.m_dtx_id.T])
    idx = s.m_tx_idxs.at(h)
    E.oblige("a shard is told to apply only when it takes part, and once", "post", And(part(s, h), cnt(E, "applyn")[h] == 0), e)
    E.oblige("applying starts only when every shard answered and the decision was persisted", "post",
             And(Or(BEGUN, RECC), Imp(BEGUN, locked_all(E, s, cnt(E, "lockn"))), done_cb_ok(E, s, "commit")), e)
    E.oblige("a shard is told exactly the decision for its transactions, for this dtx", "post",
             And(d.z == s.m_dtx_id.z, fl.len == idx.len, Forall([I], lambda k: Imp(frange(k, fl.len), fl.at(k).z == dec(E, idx.at(k).z)))), e)
    bump(E, "applyn", h)
    return Val(TBool(), [applyok(E, h)])


def h_disc(E, p, args, e, f):
    if isinstance(p, Loc):
        p = E.read(p)
    s = pre(E)
    h = E.fresh(I, "shard")
    E.assume(h == ix(E, p))
    d, = vals(E, args, f, [s.m_dtx_id.T])
    E.oblige("a shard is told to discard only when it takes part, and once", "post", And(part(s, h), cnt(E, "discn")[h] == 0, d.z == s.m_dtx_id.z), e)
    E.oblige("discarding starts only when every shard applied and this was persisted", "post",
             And(Imp(Not(RECD), ap_all(E, s, cnt(E, "applyn"))), done_cb_ok(E, s, "disc")), e)
    bump(E, "discn", h)
    return Val(TBool(), [discok(E, h)])


def h_range(E, p, args, e, f):
    if isinstance(p, Loc):
        p = E.read(p)
    x = E.ev(args[0], f)
    return Val(TBool(), [inr(E, p.t[0], x.t[0])])


def on_call(E, fv, vs, e, f):
    s = pre(E)
    hit = [n for n, fl in CB.items() if fv.t[0].eq(field(s, fl).t[0])]
    if not hit:
        return None
    n = hit[0]
    E.set_root("g:n_" + n, Val(TInt(64, False), [E.vars["g:n_" + n].z + 1]))
    E.oblige("each phase is announced once", "post", E.vars["g:n_" + n].z == 1, e)
    vs = [E.read(v) if isinstance(v, Loc) else v for v in vs]
    E.oblige("a phase is announced for this dtx", "post", vs[0].z == s.m_dtx_id.z, e)
    lk, ap, di = cnt(E, "lockn"), cnt(E, "applyn"), cnt(E, "discn")
    if n == "prep":
        E.oblige("the prepare announcement carries the batch and precedes locking", "post", And(BEGUN, same(vs[1], s.m_full_txs), zero(lk)), e)
    if n == "commit":
        idx = vs[2]
        E.oblige("the commit announcement follows every shard's answer and precedes applying", "post",
                 And(Or(BEGUN, RECC), Imp(BEGUN, And(done_cb_ok(E, s, "prep"), locked_all(E, s, lk))), zero(ap)), e)
        E.oblige("the commit announcement carries the decision and the routing", "post",
                 And(same(idx, s.m_tx_idxs), vs[1].len == ndec(s), Forall([I], lambda t: Imp(frange(t, vs[1].len), vs[1].at(t).z == dec(E, t)))), e)
    if n == "disc":
        E.oblige("the discard announcement follows every shard's confirmation and precedes discarding", "post",
                 And(Imp(Not(RECD), And(done_cb_ok(E, s, "commit"), ap_all(E, s, ap))), zero(di)), e)
    if n == "done":
        E.oblige("the done announcement follows every discard", "post", And(done_cb_ok(E, s, "disc"), di_all(E, s, di)), e)
    return Val(TBool(), [cbok(n)])


def ndec(s):
    return If(BEGUN, s.m_full_txs.len, s.m_complete_txs.len)


def where(E, i, t):
    """the position at which transaction t is put in shard i's list (a prophecy fixed by add_tx)"""
    return E.uf("where", [i, t], I)


def routed(E, s):
    n = s.m_shards.len
    idx, txs, full = s.m_tx_idxs, s.m_txs, s.m_full_txs
    return [
        ("one transaction per index", Forall([I], lambda i: Imp(frange(i, n), txs.at(i).len == idx.at(i).len))),
        ("a shard's transactions are those indexed", Forall([I, I], lambda i, k: Imp(And(frange(i, n), frange(k, idx.at(i).len)),
                                                    And(frange(idx.at(i).at(k).z, full.len), same(txs.at(i).at(k).m_tx, full.at(idx.at(i).at(k).z)))))),
        ("each once", Forall([I, I, I], lambda i, k, l: Imp(And(frange(i, n), 0 <= k, k < l, l < idx.at(i).len), idx.at(i).at(k).z < idx.at(i).at(l).z))),
        ("routed only to shards concerned", Forall([I, I], lambda i, k: Imp(And(frange(i, n), frange(k, idx.at(i).len)), concerns(E, s.m_shards.at(i).t[0], full.at(idx.at(i).at(k).z))))),
        ("and to all of those", Forall([I, I], lambda i, t: Imp(And(frange(i, n), frange(t, full.len), concerns(E, s.m_shards.at(i).t[0], full.at(t))),
                                                               And(frange(where(E, i, t), idx.at(i).len), idx.at(i).at(where(E, i, t)).z == t)), pats=lambda i, t: [concerns(E, s.m_shards.at(i).t[0], full.at(t))])),
    ]


def shape(s, E):
    n = s.m_shards.len
    return [
        ("at least one shard", n > 0),
        ("a list per shard", And(s.m_txs.len == n, s.m_tx_idxs.len == n)),
        ("distinct shards", Forall([I], lambda i: Imp(frange(i, n), ix(E, s.m_shards.at(i)) == i))),
    ]


def dinv(s, E):
    n = s.m_shards.len
    r = routed(E, s)
    return shape(s, E) + [(nm, Imp(fresh_phase(s), fm)) for nm, fm in r] + [
        ("a recovered decision covers the transactions routed", Imp(s.m_state.z == COMMIT, Forall([I, I], lambda i, k: Imp(And(frange(i, n), frange(k, s.m_tx_idxs.at(i).len)), frange(s.m_tx_idxs.at(i).at(k).z, s.m_complete_txs.len))))),
        ("a recovered discard goes to every shard", And(Imp(s.m_state.z == DISCARD, s.m_discard_all.z), Imp(Or(fresh_phase(s), s.m_state.z == COMMIT), Not(s.m_discard_all.z)))),
        ("not decided before execution", Imp(fresh_phase(s), s.m_complete_txs.len == 0)),
    ]


class Ctor(Contract):
    fn = D + "::distributed_tx"
    short = "distributed_tx::distributed_tx"

    def requires(self, C):
        sh = C.arg(1)
        return [("at least one shard, all distinct", And(sh.len > 0, Forall([I], lambda i: Imp(frange(i, sh.len), ix(C.E, sh.at(i)) == i))))]

    def ensures(self, C):
        s = C.this
        return [("starts empty", And(s.m_state.z == START, s.m_full_txs.len == 0, same(s.m_shards, C.arg(1)), s.m_dtx_id.z == C.arg(0).z, Forall([I], lambda i: Imp(frange(i, s.m_shards.len), s.m_tx_idxs.at(i).len == 0))))]


class AddTx(Contract):
    fn = D + "::add_tx"
    short = "distributed_tx::add_tx"

    def modifies(self, C):
        return ["m_txs", "m_tx_idxs", "m_full_txs"]

    def requires(self, C):
        return [("nothing was executed yet", fresh_phase(C.this))]

    def ghost(self, C):
        s = C.old
        return [("position", Forall([I], lambda i: And(where(C.E, i, s.m_full_txs.len) == s.m_tx_idxs.at(i).len, s.m_tx_idxs.at(i).len >= 0), pats=lambda i: [where(C.E, i, s.m_full_txs.len), s.m_tx_idxs.at(i).len]))]

    def ensures(self, C):
        E, s0, s, tx = C.E, C.old, C.this, C.arg(0)
        return [("the batch grows by the transaction", And(s.m_full_txs.len == s0.m_full_txs.len + 1, same(s.m_full_txs.at(s0.m_full_txs.len), tx),
                                                         Forall([I], lambda i: Imp(frange(i, s0.m_full_txs.len), same(s.m_full_txs.at(i), s0.m_full_txs.at(i)))))),
                ("and its index is returned", C.ret.z == s0.m_full_txs.len)]

    def loopcands(self, Lc):
        E, s0, s = Lc.E, Lc.old, Lc.this
        tx = Lc.arg(0)
        n = s0.m_shards.len
        t = s0.m_full_txs.len
        for nm, v, _0 in Lc.modified_locals(TInt):
            i = v.z
            yield "lists(%s)" % nm, And(0 <= i, i <= n, s.m_txs.len == n, s.m_tx_idxs.len == n)
            yield "untouched(%s)" % nm, Forall([I], lambda j: Imp(And(i <= j, j < n), And(same(s.m_txs.at(j), s0.m_txs.at(j)), same(s.m_tx_idxs.at(j), s0.m_tx_idxs.at(j)))))
            yield "sent(%s)" % nm, Forall([I], lambda j: Imp(And(0 <= j, j < i, concerns(E, s0.m_shards.at(j).t[0], tx)),
                                                          And(s.m_txs.at(j).len == s0.m_txs.at(j).len + 1, s.m_tx_idxs.at(j).len == s0.m_tx_idxs.at(j).len + 1,
                                                              same(s.m_txs.at(j).at(s0.m_txs.at(j).len).m_tx, tx), s.m_tx_idxs.at(j).at(s0.m_tx_idxs.at(j).len).z == t)))
            yield "kept(%s)" % nm, Forall([I, I], lambda j, k: Imp(And(0 <= j, j < i, frange(k, s0.m_tx_idxs.at(j).len)),
                                                             And(s.m_tx_idxs.at(j).at(k).z == s0.m_tx_idxs.at(j).at(k).z, same(s.m_txs.at(j).at(k), s0.m_txs.at(j).at(k)))),
                                                             pats=lambda j, k: [s.m_tx_idxs.at(j).at(k).z, s0.m_tx_idxs.at(j).at(k).z])
            yield "not sent(%s)" % nm, Forall([I], lambda j: Imp(And(0 <= j, j < i, Not(concerns(E, s0.m_shards.at(j).t[0], tx))),
                                                              And(s.m_txs.at(j).len == s0.m_txs.at(j).len, s.m_tx_idxs.at(j).len == s0.m_tx_idxs.at(j).len)))
        for rec, roots, entry in E.loopstack:
            pass
        if Lc.pos is not None and Lc.enum is not None and isinstance(Lc.enum.T, TVec):
            L = Lc.enum.cval
            for nm, h, _0 in Lc.locals(TOpaque):
                if h.T.sortname == "P_interface":
                    yield "none so far(%s)" % nm, Forall([I], lambda j: Imp(frange(j, Lc.pos), Not(inr(E, h.t[0], L.at(j).z))))
            for v, _r in counters(Lc):
                yield "none so far[%s]" % _r, Forall([I], lambda j: Imp(frange(j, Lc.pos), Not(inr(E, s0.m_shards.at(v).t[0], L.at(j).z))))


def counters(Lc):
    out = []
    for rec, roots, entry in Lc.E.loopstack:
        out += [(Lc.E.vars[r].z, Lc.nm(r)) for r, _ in rec.writes if r in Lc.E.vars and isinstance(Lc.E.vars[r], Val) and isinstance(Lc.E.vars[r].T, TInt) and r.startswith("f")]
    return out


def distinct_cbs(E, s):
    N = lambda fl: field(s, fl).t[0]
    cbs = list(CB.values())
    return ("the registered callbacks are distinct", And(*[Or(N(a) != N(b), N(a) == E.nullconst(field(s, a).T)) for i, a in enumerate(cbs) for b in cbs[i + 1:]]))


def refusals(E, s):
    n, idx = s.m_shards.len, s.m_tx_idxs
    wi, wk = lambda t: E.uf("wi", [t], I), lambda t: E.uf("wk", [t], I)
    d = lambda t: dec(E, t)
    return [("the decision is the conjunction of the answers", Imp(BEGUN, And(
            Forall([I, I], lambda i, k: Imp(And(frange(i, n), frange(k, idx.at(i).len), Not(lockres(E, i).val.at(k).z)), Not(d(idx.at(i).at(k).z)))),
            Forall([I], lambda t: Imp(Not(d(t)), And(frange(wi(t), n), frange(wk(t), idx.at(wi(t)).len), idx.at(wi(t)).at(wk(t)).z == t, Not(lockres(E, wi(t)).val.at(wk(t)).z))), pats=lambda t: [d(t)]))))]


def counted(E, s):
    n = s.m_shards.len
    return [("shards taking part, counted", And(slot(E, s, z3.IntVal(0)) == 0, Forall([I], lambda j: Imp(frange(j, n), And(slot(E, s, j + 1) == slot(E, s, j) + If(part(s, j), 1, 0), Imp(part(s, j), of(E, slot(E, s, j)) == j))), pats=lambda j: [slot(E, s, j)])))]


def decided(E, s, v):
    """v is the decision"""
    return And(v.len == ndec(s), Forall([I], lambda t: Imp(frange(t, v.len), v.at(t).z == dec(E, t))))


def routed_in(s, m):
    return Forall([I, I], lambda i, k: Imp(And(frange(i, s.m_shards.len), frange(k, s.m_tx_idxs.at(i).len)), frange(s.m_tx_idxs.at(i).at(k).z, m)))


def once(s):
    return Forall([I, I, I], lambda i, k, l: Imp(And(frange(i, s.m_shards.len), 0 <= k, k < l, l < s.m_tx_idxs.at(i).len), s.m_tx_idxs.at(i).at(k).z < s.m_tx_idxs.at(i).at(l).z))


class Phase(Contract):
    inv = False

    def common(self, C):
        E, s = C.E, C.this
        return shape(s, E) + [distinct_cbs(E, s)]

    def loopcands(self, Lc):
        return phase_cands(Lc)


class Prepare(Phase):
    fn = D + "::prepare"
    short = "distributed_tx::prepare"
    havocs = ("lockn", "n_prep")

    def modifies(self, C):
        return ["m_state", "m_txs"]

    def requires(self, C):
        E, s = C.E, C.this
        return self.common(C) + [
            ("nothing was executed yet", And(BEGUN, Not(RECC), Not(RECD), zero(cnt(E, "lockn")), E.vars["g:n_prep"].z == 0)),
            ("routed within the batch", And(routed_in(s, s.m_full_txs.len), once(s)))]

    def ghost(self, C):
        return refusals(C.E, C.old) + counted(C.E, C.old)

    def ensures(self, C):
        E, s0, s, r = C.E, C.old, C.this, C.ret
        return [
            ("failure: marked failed", Imp(Not(r.has()), s.m_state.z == FAILED)),
            ("success: the next phase is commit", Imp(r.has(), s.m_state.z == COMMIT)),
            ("success: the batch was announced", Imp(r.has(), done_cb_ok(E, s0, "prep"))),
            ("success: every shard concerned was asked to lock, and answered", Imp(r.has(), locked_all(E, s0, cnt(E, "lockn")))),
            ("success: the result is the decision", Imp(r.has(), decided(E, s0, r.val))),
            ("a list per shard remains", s.m_txs.len == s0.m_txs.len),
        ]


class Commit(Phase):
    fn = D + "::commit"
    short = "distributed_tx::commit"
    havocs = ("applyn", "n_commit")

    def modifies(self, C):
        return ["m_state"]

    def requires(self, C):
        E, s, c = C.E, C.this, C.arg(0)
        return self.common(C) + [
            ("not applied before", And(zero(cnt(E, "applyn")), E.vars["g:n_commit"].z == 0)),
            ("started from the beginning or recovered at this phase", And(Or(BEGUN, RECC), Not(RECD))),
            ("every shard answered", Imp(BEGUN, And(done_cb_ok(E, s, "prep"), locked_all(E, s, cnt(E, "lockn"))))),
            ("it is told the decision", And(c.len == ndec(s), Forall([I], lambda t: Imp(frange(t, c.len), c.at(t).z == dec(E, t))))),
            ("routed within the batch", routed_in(s, c.len)),
        ]

    def ghost(self, C):
        return counted(C.E, C.old)

    def ensures(self, C):
        E, s0, s, r = C.E, C.old, C.this, C.ret
        return [
            ("failure: marked failed", Imp(Not(r.z), s.m_state.z == FAILED)),
            ("success: the next phase is discard", Imp(r.z, s.m_state.z == DISCARD)),
            ("success: the decision was announced and every shard concerned confirmed it", Imp(r.z, And(done_cb_ok(E, s0, "commit"), ap_all(E, s0, cnt(E, "applyn"))))),
        ]


class Discard(Phase):
    fn = D + "::discard"
    short = "distributed_tx::discard"
    havocs = ("discn", "n_disc", "n_done")

    def modifies(self, C):
        return ["m_state"]

    def requires(self, C):
        E, s = C.E, C.this
        return self.common(C) + [
            ("not discarded before", And(zero(cnt(E, "discn")), E.vars["g:n_disc"].z == 0, E.vars["g:n_done"].z == 0)),
            ("recovered at this phase, or all told", s.m_discard_all.z == RECD),
            ("every shard confirmed", Imp(Not(RECD), And(done_cb_ok(E, s, "commit"), ap_all(E, s, cnt(E, "applyn"))))),
        ]

    def ghost(self, C):
        return counted(C.E, C.old)

    def ensures(self, C):
        E, s0, s, r = C.E, C.old, C.this, C.ret
        return [
            ("failure: marked failed", Imp(Not(r.z), s.m_state.z == FAILED)),
            ("success: done", Imp(r.z, s.m_state.z == DONE)),
            ("success: announced, and every shard concerned discarded the record", Imp(r.z, And(done_cb_ok(E, s0, "disc"), di_all(E, s0, cnt(E, "discn")), done_cb_ok(E, s0, "done")))),
        ]


class Execute(Contract):
    fn = D + "::execute"
    short = "distributed_tx::execute"
    havocs = ("lockn", "applyn", "discn", "n_prep", "n_commit", "n_disc", "n_done")

    def modifies(self, C):
        return ["m_state", "m_txs", "m_complete_txs"]

    def requires(self, C):
        E, s = C.E, C.this
        d = lambda t: dec(E, t)
        return [
            ("not finished before", Or(fresh_phase(s), *[s.m_state.z == p_ for p_ in (COMMIT, DISCARD, FAILED)])),
            distinct_cbs(E, s),
        ]

    def ghost(self, C):
        E, s = C.E, C.old
        return [
            ("where it starts", And(BEGUN == fresh_phase(s), RECC == (s.m_state.z == COMMIT), RECD == (s.m_state.z == DISCARD))),
            ("nothing requested yet", And(*[zero(cnt(E, g)) for g in ("lockn", "applyn", "discn")], *[E.vars["g:n_" + g].z == 0 for g in CB])),
            ("the decision of a recovered execution", Imp(RECC, Forall([I], lambda t: dec(E, t) == s.m_complete_txs.at(t).z, pats=lambda t: [dec(E, t)]))),
        ]

    def ensures(self, C):
        E, s0, s, r = C.E, C.old, C.this, C.ret
        lk, ap, di = cnt(E, "lockn"), cnt(E, "applyn"), cnt(E, "discn")
        return [
            ("reports a result only when every phase completed", Imp(r.has(), s.m_state.z == DONE)),
            ("reports failure otherwise", Imp(Not(r.has()), s.m_state.z == FAILED)),
            ("success: every shard concerned was asked to lock, and answered", Imp(And(r.has(), BEGUN), And(done_cb_ok(E, s0, "prep"), locked_all(E, s0, lk)))),
            ("success: every shard concerned confirmed the decision", Imp(And(r.has(), Not(RECD)), And(done_cb_ok(E, s0, "commit"), ap_all(E, s0, ap)))),
            ("success: every shard concerned discarded the record", Imp(r.has(), And(done_cb_ok(E, s0, "disc"), di_all(E, s0, di), done_cb_ok(E, s0, "done")))),
            ("success: the result is the decision", Imp(And(r.has(), Not(RECD)), decided(E, s0, r.val))),
        ]


def phase_cands(Lc):
    E, s0, s = Lc.E, Lc.old, Lc.this
    n, idx = s0.m_shards.len, s0.m_tx_idxs
    lk, ap, di = cnt(E, "lockn"), cnt(E, "applyn"), cnt(E, "discn")
    if Lc.enum is None:
        for nm, v, _0 in Lc.modified_locals(TInt):
            i = v.z
            yield "shards(%s)" % nm, And(0 <= i, i <= n)
            for g, c in (("lock", lk), ("apply", ap), ("disc", di)):
                if not any(r == "g:%sn" % g for r, _ in Lc.rec.writes):
                    continue
                yield "%s requests(%s)" % (g, nm), Forall([I], lambda j: c[j] == If(And(j < i, part(s0, j)), 1, 0), pats=lambda j: [c[j]])
            yield "lists(%s)" % nm, And(s.m_txs.len == n, Forall([I], lambda j: Imp(And(i <= j, j < n), same(s.m_txs.at(j), s0.m_txs.at(j)))))
            for fm, F, _1 in Lc.modified_locals(TVec):
                yield "futures count(%s,%s)" % (nm, fm), F.len == slot(E, s0, i)
                for lb, a in answers(E, F):
                 yield "futures cover %s(%s,%s)" % (lb, nm, fm), Forall([I], lambda j: Imp(And(j < i, part(s0, j)), And(frange(slot(E, s0, j), F.len), a(slot(E, s0, j), j))), pats=lambda j: [slot(E, s0, j)])
                 yield "futures of %s(%s,%s)" % (lb, nm, fm), Forall([I], lambda q: Imp(frange(q, F.len), And(part(s0, of(E, q)), of(E, q) < i, slot(E, s0, of(E, q)) == q, a(q, of(E, q)))), pats=lambda q: [of(E, q)] + ([F.at(q).t[-1]] if isinstance(F.T.t, TRec) else []))
            for fm, F, _1 in Lc.modified_locals(VB):
                # one shard's flags
                for c_, _r in counters(Lc):
                    if not c_.eq(i):
                        yield "flags(%s,%s,%s)" % (nm, fm, _r), Forall([I], lambda k: Imp(frange(k, i), F.at(k).z == dec(E, idx.at(c_).at(k).z)))
                yield "answers so far(%s,%s)" % (nm, fm), True
    for rm, R, R0 in Lc.modified_locals(VB):
        yield "size(%s)" % rm, R.len == s0.m_full_txs.len
        yield "refusals are real(%s)" % rm, Forall([I], lambda t: Imp(And(frange(t, R.len), Not(R.at(t).z)), Not(dec(E, t))))
    pos = Lc.pos if Lc.enum is not None else None
    if pos is not None:
        F = Lc.enum.cval if Lc.enum is not None else None
        if F is None:
            pass
        elif isinstance(F.T, TVec) and F.T.t == TBool():
            yield "all confirmed", Forall([I], lambda q: Imp(frange(q, pos), F.at(q).z))
        elif answers(E, F):
            yield "all answered", Forall([I], lambda q: Imp(frange(q, pos), And(F.at(q).first.has(), F.at(q).first.val.len == idx.at(F.at(q).second.z).len)))
            for rm, R, R0 in Lc.modified_locals(VB):
                yield "refusals taken(%s)" % rm, Forall([I, I], lambda q, k: Imp(And(frange(q, pos), frange(k, idx.at(F.at(q).second.z).len), Not(F.at(q).first.val.at(k).z)), Not(R.at(idx.at(F.at(q).second.z).at(k).z).z)))
    else:
        # inner loop over one shard's answers
        sh = [w.second.z for _n, w in Lc.refs(TRec) if [n_ for n_, _t in w.T.fields] == ["first", "second"] and isinstance(w.T.fields[1][1], TInt)] + [w.z for _n, w in Lc.refs(TInt)]
        for nm, v, _0 in Lc.modified_locals(TInt):
            for rm, R, R0 in Lc.modified_locals(VB):
                yield "earlier refusals kept(%s,%s)" % (nm, rm), Forall([I], lambda t: Imp(And(frange(t, R.len), Not(R0.at(t).z)), Not(R.at(t).z)))
                for q, h in enumerate(sh):
                    A_ = lockres(E, h)
                    yield "refusals of this shard(%s,%s,%d)" % (nm, rm, q), And(frange(h, n), Forall([I], lambda k: Imp(And(frange(k, v.z), Not(A_.val.at(k).z)), Not(R.at(idx.at(h).at(k).z).z))))



def answers(E, F):
    """what the future at q delivers, for shard j"""
    T = F.T.t
    if T == TBool():
        return [("apply", lambda q, j: F.at(q).z == applyok(E, j)), ("discard", lambda q, j: F.at(q).z == discok(E, j))]
    if isinstance(T, TRec) and T.fields and T.fields[0][1] == OVB:
        return [("lock", lambda q, j: And(same(F.at(q).first, lockres(E, j)), F.at(q).second.z == j))]
    return []




def slot(E, s, j):
    """how many participating shards come before j"""
    return E.uf("slot", [j], I)


def of(E, q):
    return E.uf("slot_of", [q], I)


class RecoverPrepare(Contract):
    fn = D + "::recover_prepare"
    short = "distributed_tx::recover_prepare"

    def modifies(self, C):
        return ["m_state", "m_txs", "m_tx_idxs", "m_full_txs"]

    def requires(self, C):
        return [("nothing was executed yet", fresh_phase(C.this))]

    def added(self, s0, s, txs, n):
        return And(s.m_full_txs.len == s0.m_full_txs.len + n,
                   Forall([I], lambda i: Imp(frange(i, s0.m_full_txs.len), same(s.m_full_txs.at(i), s0.m_full_txs.at(i)))),
                   Forall([I], lambda i: Imp(frange(i, n), same(s.m_full_txs.at(s0.m_full_txs.len + i), txs.at(i)))))

    def ensures(self, C):
        s0, s, txs = C.old, C.this, C.arg(0)
        return [("execution resumes with the prepare phase", s.m_state.z == PREPARE),
                ("the persisted batch is added, in order", self.added(s0, s, txs, txs.len))]

    def loopcands(self, Lc):
        s0, s = Lc.old, Lc.this
        for nm, fm in dinv(s, Lc.E):
            yield "inv " + nm, fm
        yield "still preparing", s.m_state.z == PREPARE
        if Lc.enum is not None:
            yield "added", self.added(s0, s, Lc.arg(0), Lc.pos)
        for nm, v, _0 in Lc.modified_locals(TInt):
            yield "added(%s)" % nm, And(0 <= v.z, v.z <= Lc.arg(0).len, self.added(s0, s, Lc.arg(0), v.z))


class RecoverCommit(Contract):
    fn = D + "::recover_commit"
    short = "distributed_tx::recover_commit"

    def modifies(self, C):
        return ["m_state", "m_tx_idxs", "m_complete_txs"]

    def requires(self, C):
        s, c, ix_ = C.this, C.arg(0), C.arg(1)
        return [("a new distributed transaction", And(s.m_state.z == START, s.m_full_txs.len == 0)),
                ("what was persisted covers the shards and the batch", And(ix_.len == s.m_shards.len, Forall([I, I], lambda i, k: Imp(And(frange(i, ix_.len), frange(k, ix_.at(i).len)), frange(ix_.at(i).at(k).z, c.len)))))]

    def ensures(self, C):
        s = C.this
        return [("execution resumes with the commit phase", s.m_state.z == COMMIT),
                ("with the persisted decision and routing", And(same(s.m_complete_txs, C.arg(0)), same(s.m_tx_idxs, C.arg(1))))]


class RecoverDiscard(Contract):
    fn = D + "::recover_discard"
    short = "distributed_tx::recover_discard"

    def modifies(self, C):
        return ["m_state", "m_discard_all"]

    def requires(self, C):
        s = C.this
        return [("a new distributed transaction", And(s.m_state.z == START, s.m_full_txs.len == 0))]

    def ensures(self, C):
        return [("execution resumes with the discard phase", C.this.m_state.z == DISCARD)]


class Size(Contract):
    fn = D + "::size"
    short = "distributed_tx::size"

    def ensures(self, C):
        s = C.this
        a, b = s.m_full_txs.len, s.m_complete_txs.len
        return [("the number of transactions, also when recovered", C.ret.z == If(a > b, a, b))]


class GetState(Contract):
    fn = D + "::get_state"
    short = "distributed_tx::get_state"

    def ensures(self, C):
        return [("the phase", C.ret.z == C.this.m_state.z)]


class Dtx(Unit):
    name = "dtx"
    sources = ["src/uhs/twophase/coordinator/distributed_tx.cpp"]
    extra_args = STUBS
    contracts = [Ctor(), AddTx(), Prepare(), Commit(), Discard(), Execute(), RecoverPrepare(), RecoverCommit(), RecoverDiscard(), Size(), GetState()]
    invariants = {D: dinv}
    externs = {"on_call": on_call, "fn": {"cbdc::to_string": lambda E, t, a, e, f: E.fresh_val(TOpaque("Str"))}, "method": {("P_interface", "lock_outputs"): h_lock, ("P_interface", "apply_outputs"): h_apply,
                                              ("P_interface", "discard_dtx"): h_disc, ("P_interface", "hash_in_shard_range"): h_range}}

    def axioms(self, E):
        T = self.types.parse(TXT)
        h = z3.Const("h_", P)
        ts = [z3.Const("tx_%d_" % i, s) for i, s in enumerate(T.leaves())]
        tx = Val(T, ts)
        j_ = z3.Const("j_", I)
        c = concerns(E, h, tx)
        return [z3.ForAll([h] + ts, c == Or(inr(E, h, tx.m_id.z), z3.Exists([j_], And(frange(j_, tx.m_inputs.len), inr(E, h, tx.m_inputs.at(j_).z))),
                                            z3.Exists([j_], And(frange(j_, tx.m_uhs_outputs.len), inr(E, h, tx.m_uhs_outputs.at(j_).z)))), patterns=[c])]

    def on_ghosts(self, E, C):
        for g in ("lockn", "applyn", "discn"):
            E.vars["g:" + g] = Val(TCount(), [E.fresh(AI, "g_" + g)])
        for g in CB:
            E.vars["g:n_" + g] = Val(TInt(64, False), [E.fresh(I, "g_n_" + g)])


unit = Dtx()
