"""2PC locking shard: src/uhs/twophase/locking_shard/locking_shard.cpp"""
from units.common import *

Q = "cbdc::locking_shard::locking_shard"


def att_ok(E, tx, opts):
    return uf_all(E, "AttOK", [tx, opts.m_sentinel_public_keys, opts.m_attestation_threshold])


def x_check_attestations(E, this, args, e, f):
    vs = [lib.argv(E, a, f) for a in args]
    return Val(TBool(), [uf_all(E, "AttOK", vs)])


def inr(E, rng, h):
    b = hashbyte(E, h, 0)
    return And(rng.first.z <= b, b <= rng.second.z)


def inputs(t):
    return t.m_tx.m_inputs


def outs(t):
    return t.m_tx.m_uhs_outputs


def distinct(E, t):
    v = inputs(t)
    return Forall([I, I], lambda i, j: Imp(And(0 <= i, i < j, j < v.len), v.at(i).z != v.at(j).z))


def holder(E, s, d, i, j):
    """input j of tx i of prepared dtx d is locked on behalf of that tx"""
    p = s.m_prepared_dtxs
    e = p.at(d)
    x = inputs(e.m_txs.at(i))
    return And(p.has(d), 0 <= i, i < e.m_txs.len, e.m_results.at(i).z, 0 <= j, j < x.len, inr(E, s.m_output_range, x.at(j).z))


def hin(s, d, i, j):
    return inputs(s.m_prepared_dtxs.at(d).m_txs.at(i)).at(j).z


def invariant(s, E):
    U, L, P = s.m_uhs.dom, s.m_locked.dom, s.m_prepared_dtxs
    return [
        ("unspent and locked are disjoint", Forall([Hs], lambda h: Not(And(U[h], L[h])))),
        ("results recorded per tx", Forall([Hs], lambda d: Imp(P.has(d), And(P.at(d).m_results.len == P.at(d).m_txs.len, P.at(d).m_txs.len >= 0)))),
        ("granted inputs are locked", Forall([Hs, I, I], lambda d, i, j: Imp(holder(E, s, d, i, j), L[hin(s, d, i, j)]))),
        ("an input is granted to one tx only", Forall([Hs, I, I, Hs, I, I], lambda d, i, j, e, k, l: Imp(
            And(holder(E, s, d, i, j), holder(E, s, e, k, l), hin(s, d, i, j) == hin(s, e, k, l)), And(d == e, i == k, j == l)))),
    ]


class CheckAndLock(Contract):
    fn = Q + "::check_and_lock_tx"
    short = "locking_shard::check_and_lock_tx"
    held = ("m_mut",)

    def requires(self, C):
        s = C.this
        return [("inputs of a tx are distinct", distinct(C.E, C.arg(0)))]

    def modifies(self, C):
        return ["m_uhs", "m_locked"]

    def ensures(self, C):
        E, t = C.E, C.arg(0)
        U0, L0, U, L = C.old.m_uhs.dom, C.old.m_locked.dom, C.this.m_uhs.dom, C.this.m_locked.dom
        x = inputs(t)
        r = C.ret.z
        rng = C.old.m_output_range
        mine = lambda h: z3.Exists([z3.Const("j_w", I)], And(frange(z3.Const("j_w", I), x.len), x.at(z3.Const("j_w", I)).z == h))
        return [
            ("success implies attestations", Imp(r, att_ok(E, t.m_tx, C.old.m_opts))),
            ("success implies every in-range input was unspent", Imp(r, Forall([I], lambda j: Imp(And(frange(j, x.len), inr(E, rng, x.at(j).z)), U0[x.at(j).z])))),
            ("success locks every in-range input", Imp(r, Forall([I], lambda j: Imp(And(frange(j, x.len), inr(E, rng, x.at(j).z)), And(L[x.at(j).z], Not(U[x.at(j).z])))))),
            ("only this tx's in-range inputs move", Forall([Hs], lambda h: Imp(And(U0[h], Not(U[h])), And(inr(E, rng, h), mine(h), L[h], r)))),
            ("nothing becomes unspent", Forall([Hs], lambda h: Imp(U[h], U0[h]))),
            ("locks are only added, from unspent", Forall([Hs], lambda h: L[h] == Or(L0[h], And(U0[h], Not(U[h]))))),
            ("failure changes nothing", Imp(Not(r), Forall([Hs], lambda h: And(U[h] == U0[h], L[h] == L0[h])))),
            ("refusal has a reason", Imp(Not(r), Or(Not(att_ok(E, t.m_tx, C.old.m_opts)), z3.Exists([z3.Const("j_r", I)], And(
                frange(z3.Const("j_r", I), x.len), inr(E, rng, x.at(z3.Const("j_r", I)).z), Not(U[x.at(z3.Const("j_r", I)).z])))))),
        ]

    def loopcands(self, Lc):
        E = Lc.E
        s, o = Lc.this, Lc.old
        rng = o.m_output_range
        x = inputs(Lc.arg(0))
        p = Lc.pos
        if p is None:
            return
        U0, L0, U, L = o.m_uhs.dom, o.m_locked.dom, s.m_uhs.dom, s.m_locked.dom
        g = lambda j: And(inr(E, rng, x.at(j).z))
        # checking loop
        yield "checked inputs were unspent", Forall([I], lambda j: Imp(And(0 <= j, j < p, j < x.len, g(j)), U0[x.at(j).z]))
        # moving loop
        yield "moved inputs are locked", Forall([I], lambda j: Imp(And(0 <= j, j < p, j < x.len, g(j)), And(L[x.at(j).z], Not(U[x.at(j).z]))))
        yield "unmoved inputs are still unspent", Forall([I], lambda j: Imp(And(p <= j, j < x.len, g(j)), U[x.at(j).z]))
        yield "only inputs leave", Forall([Hs], lambda h: Imp(And(U0[h], Not(U[h])), And(inr(E, rng, h), z3.Exists([z3.Const("j_w", I)], And(frange(z3.Const("j_w", I), x.len), x.at(z3.Const("j_w", I)).z == h)))))
        yield "U shrinks", Forall([Hs], lambda h: Imp(U[h], U0[h]))
        yield "L = L0 + moved", Forall([Hs], lambda h: L[h] == Or(L0[h], And(U0[h], Not(U[h]))))
        yield "U,L disjoint", Forall([Hs], lambda h: Not(And(U[h], L[h])))


class LockOutputs(Contract):
    fn = Q + "::lock_outputs"
    short = "locking_shard::lock_outputs"
    nparams = 2

    def requires(self, C):
        v = C.arg(0)
        return [("inputs of each tx are distinct", Forall([I], lambda i: Imp(frange(i, v.len), distinct(C.E, v.at(i)))))]

    def modifies(self, C):
        return ["m_uhs", "m_locked", "m_prepared_dtxs"]

    def ensures(self, C):
        E = C.E
        txs, d = C.arg(0), C.arg(1).z
        o, s = C.old, C.this
        U0, L0, U, L = o.m_uhs.dom, o.m_locked.dom, s.m_uhs.dom, s.m_locked.dom
        P0, P = o.m_prepared_dtxs, s.m_prepared_dtxs
        run = o.m_running.z
        new = And(run, Not(P0.has(d)))
        rng = o.m_output_range
        R = C.ret.val
        unchanged = And(U == U0, L == L0, same(P, P0))
        ok = C.ret.has()
        return [
            ("stopped: no answer", Imp(Not(run), And(Not(ok), unchanged))),
            ("running: answers", Imp(run, ok)),
            ("repeated dtx: stored results, no effect", Imp(And(run, P0.has(d)), And(veq(R, P0.at(d).m_results), unchanged))),
            ("one flag per tx", Imp(new, R.len == txs.len)),
            ("dtx recorded", Imp(new, And(P.has(d), veq(P.at(d).m_results, R), P.at(d).m_txs.len == txs.len,
                                          Forall([I], lambda i: Imp(frange(i, txs.len), same(P.at(d).m_txs.at(i), txs.at(i))))))),
            ("other dtxs untouched", Forall([Hs], lambda e: Imp(e != d, And(P.has(e) == P0.has(e), Imp(P.has(e), same(P.at(e), P0.at(e))))))),
            ("granted tx: attested", Imp(new, Forall([I], lambda i: Imp(And(frange(i, txs.len), R.at(i).z), att_ok(E, txs.at(i).m_tx, o.m_opts))))),
            ("granted tx: inputs were unspent and are now locked", Imp(new, Forall([I, I], lambda i, j: Imp(
                And(frange(i, txs.len), R.at(i).z, frange(j, inputs(txs.at(i)).len), inr(E, rng, inputs(txs.at(i)).at(j).z)),
                And(U0[inputs(txs.at(i)).at(j).z], Not(U[inputs(txs.at(i)).at(j).z]), L[inputs(txs.at(i)).at(j).z]))))),
            ("conflicting txs are not both granted", Imp(new, Forall([I, I, I, I], lambda i, j, k, l: Imp(
                And(frange(i, txs.len), R.at(i).z, frange(j, inputs(txs.at(i)).len), inr(E, rng, inputs(txs.at(i)).at(j).z),
                    frange(k, txs.len), R.at(k).z, frange(l, inputs(txs.at(k)).len), inputs(txs.at(i)).at(j).z == inputs(txs.at(k)).at(l).z),
                i == k)))),
            ("nothing becomes unspent", Forall([Hs], lambda h: Imp(U[h], U0[h]))),
            ("spent outputs are locked, not lost", Forall([Hs], lambda h: L[h] == Or(L0[h], And(U0[h], Not(U[h]))))),
            ("refused tx: unattested or an input is unavailable", Imp(new, Forall([I], lambda i: Imp(And(frange(i, txs.len), Not(R.at(i).z)), Or(
                Not(att_ok(E, txs.at(i).m_tx, o.m_opts)), z3.Exists([z3.Const("j_r", I)], And(
                    frange(z3.Const("j_r", I), inputs(txs.at(i)).len), inr(E, rng, inputs(txs.at(i)).at(z3.Const("j_r", I)).z),
                    Not(U[inputs(txs.at(i)).at(z3.Const("j_r", I)).z])))))))),
        ]

    def loopcands(self, Lc):
        E = Lc.E
        s, o = Lc.this, Lc.old
        rng = o.m_output_range
        txs = Lc.arg(0)
        p = Lc.pos
        if p is None:
            return
        U0, L0, U, L = o.m_uhs.dom, o.m_locked.dom, s.m_uhs.dom, s.m_locked.dom
        yield "U shrinks", Forall([Hs], lambda h: Imp(U[h], U0[h]))
        yield "L = L0 + moved", Forall([Hs], lambda h: L[h] == Or(L0[h], And(U0[h], Not(U[h]))))
        yield "U,L disjoint", Forall([Hs], lambda h: Not(And(U[h], L[h])))
        for nm, r, r0 in Lc.modified_locals(TVec):
            if r.T.t != TBool():
                continue
            inp = lambda i, j: inputs(txs.at(i)).at(j).z
            gr = lambda i, j: And(0 <= i, i < p, r.at(i).z, frange(j, inputs(txs.at(i)).len), inr(E, rng, inp(i, j)))
            yield "one flag each(%s)" % nm, r.len == p
            yield "granted attested(%s)" % nm, Forall([I], lambda i: Imp(And(0 <= i, i < p, r.at(i).z), att_ok(E, txs.at(i).m_tx, o.m_opts)))
            yield "granted locked(%s)" % nm, Forall([I, I], lambda i, j: Imp(gr(i, j), And(U0[inp(i, j)], Not(U[inp(i, j)]), L[inp(i, j)])))
            yield "granted exclusive(%s)" % nm, Forall([I, I, I, I], lambda i, j, k, l: Imp(And(gr(i, j), gr(k, l), inp(i, j) == inp(k, l)), And(i == k, j == l)))
            yield "refused reason(%s)" % nm, Forall([I], lambda i: Imp(And(0 <= i, i < p, Not(r.at(i).z)), Or(
                Not(att_ok(E, txs.at(i).m_tx, o.m_opts)), z3.Exists([z3.Const("j_r", I)], And(
                    frange(z3.Const("j_r", I), inputs(txs.at(i)).len), inr(E, rng, inp(i, z3.Const("j_r", I))), Not(U[inp(i, z3.Const("j_r", I))]))))))


class ApplyOutputs(Contract):
    fn = Q + "::apply_outputs"
    short = "locking_shard::apply_outputs"

    def requires(self, C):
        E, s = C.E, C.this
        c, d = C.arg(0), C.arg(1).z
        P = s.m_prepared_dtxs
        tx = lambda i: P.at(d).m_txs.at(i)
        return [
            ("only granted txs are completed (coordinator ANDs all shards' answers)", Imp(P.has(d), Forall([I], lambda i: Imp(
                And(frange(i, c.len), c.at(i).z), P.at(d).m_results.at(i).z)))),
            ("output ids are fresh (hash of the creating tx)", Imp(P.has(d), Forall([I, I], lambda i, j: Imp(
                And(frange(i, tx(i).m_tx.m_id.z.num_args() + 0) if False else frange(i, P.at(d).m_txs.len), frange(j, outs(tx(i)).len)),
                Not(s.m_locked.dom[outs(tx(i)).at(j).z]))))),
        ]

    def modifies(self, C):
        return ["m_uhs", "m_locked", "m_prepared_dtxs", "m_applied_dtxs", "m_completed_txs"]

    def ensures(self, C):
        E, s, o = C.E, C.this, C.old
        c, d = C.arg(0), C.arg(1).z
        P0, P = o.m_prepared_dtxs, s.m_prepared_dtxs
        U0, L0, U, L = o.m_uhs.dom, o.m_locked.dom, s.m_uhs.dom, s.m_locked.dom
        A0, A = o.m_applied_dtxs.dom, s.m_applied_dtxs.dom
        run = o.m_running.z
        act = And(run, P0.has(d))
        e = P0.at(d)
        n = e.m_txs.len
        g = e.m_results
        rng = o.m_output_range
        inp = lambda i, j: inputs(e.m_txs.at(i)).at(j).z
        out = lambda i, j: outs(e.m_txs.at(i)).at(j).z
        ri = lambda i, j: And(frange(i, n), frange(j, inputs(e.m_txs.at(i)).len), inr(E, rng, inp(i, j)))
        ro = lambda i, j: And(frange(i, n), frange(j, outs(e.m_txs.at(i)).len), inr(E, rng, out(i, j)))
        iw, jw = z3.Const("i_w", I), z3.Const("j_w", I)
        unch = And(U == U0, L == L0, same(P, P0), A == A0)
        return [
            ("stopped: refuses", Imp(Not(run), And(Not(C.ret.z), unch))),
            ("running: succeeds", Imp(run, C.ret.z)),
            ("already applied: no effect", Imp(And(run, Not(P0.has(d))), And(unch, A0[d]))),
            ("flag per tx", Imp(act, c.len == n)),
            ("dtx moves from prepared to applied", Imp(act, And(Not(P.has(d)), A[d]))),
            ("other dtxs untouched", Forall([Hs], lambda x: Imp(x != d, And(P.has(x) == P0.has(x), A[x] == A0[x], Imp(P.has(x), same(P.at(x), P0.at(x))))))),
            ("completed: inputs destroyed", Imp(act, Forall([I, I], lambda i, j: Imp(And(ri(i, j), c.at(i).z), And(Not(L[inp(i, j)]), Not(U[inp(i, j)])))))),
            ("completed: outputs created", Imp(act, Forall([I, I], lambda i, j: Imp(And(ro(i, j), c.at(i).z), U[out(i, j)])))),
            ("cancelled: granted inputs unspent again", Imp(act, Forall([I, I], lambda i, j: Imp(And(ri(i, j), g.at(i).z, Not(c.at(i).z)), And(U[inp(i, j)], Not(L[inp(i, j)])))))),
            ("cancelled: refused txs release nothing, locks of other dtxs survive",
             Imp(act, Forall([Hs, I, I], lambda x, i, j: Imp(And(x != d, holder(E, o, x, i, j)), And(L[hin(o, x, i, j)], Not(U[hin(o, x, i, j)])))))),
            ("only unlocked inputs and completed outputs appear", Imp(act, Forall([Hs], lambda h: Imp(And(U[h], Not(U0[h])), Or(
                And(L0[h], Not(L[h])), z3.Exists([iw, jw], And(ro(iw, jw), c.at(iw).z, out(iw, jw) == h))))))),
            ("no unspent output disappears", Forall([Hs], lambda h: Imp(U0[h], U[h]))),
            ("locks only decrease", Forall([Hs], lambda h: Imp(L[h], L0[h]))),
        ]

    def loopcands(self, Lc):
        E = Lc.E
        s, o = Lc.this, Lc.old
        c, d = Lc.arg(0), Lc.arg(1).z
        P0 = o.m_prepared_dtxs
        U0, L0, U, L = o.m_uhs.dom, o.m_locked.dom, s.m_uhs.dom, s.m_locked.dom
        e = P0.at(d)
        n = e.m_txs.len
        g = e.m_results
        rng = o.m_output_range
        inp = lambda i, j: inputs(e.m_txs.at(i)).at(j).z
        out = lambda i, j: outs(e.m_txs.at(i)).at(j).z
        ri = lambda i, j: And(frange(i, n), frange(j, inputs(e.m_txs.at(i)).len), inr(E, rng, inp(i, j)))
        ro = lambda i, j: And(frange(i, n), frange(j, outs(e.m_txs.at(i)).len), inr(E, rng, out(i, j)))
        iw, jw = z3.Const("i_w", I), z3.Const("j_w", I)
        yield "L shrinks", Forall([Hs], lambda h: Imp(L[h], L0[h]))
        yield "U grows", Forall([Hs], lambda h: Imp(U0[h], U[h]))
        yield "U,L disjoint", Forall([Hs], lambda h: Not(And(U[h], L[h])))
        yield "foreign locks survive", Forall([Hs, I, I], lambda x, i, j: Imp(And(x != d, holder(E, o, x, i, j)), L[hin(o, x, i, j)]))
        yield "completed inputs not unspent", Forall([I, I], lambda i, j: Imp(And(ri(i, j), c.at(i).z), Not(U[inp(i, j)])))
        yield "origin of new unspent", Forall([Hs], lambda h: Imp(And(U[h], Not(U0[h])), Or(
            And(L0[h], Not(L[h])), z3.Exists([iw, jw], And(ro(iw, jw), c.at(iw).z, out(iw, jw) == h)))))
        for nm, p in Lc.idxs:
            yield "inputs unlocked<%s" % nm, Forall([I, I], lambda i, j: Imp(And(ri(i, j), i < p, g.at(i).z), Not(L[inp(i, j)])))
            yield "outputs created<%s" % nm, Forall([I, I], lambda i, j: Imp(And(ro(i, j), i < p, c.at(i).z), U[out(i, j)]))
            yield "inputs restored<%s" % nm, Forall([I, I], lambda i, j: Imp(And(ri(i, j), i < p, g.at(i).z, Not(c.at(i).z)), U[inp(i, j)]))
            yield "granted inputs still locked>=%s" % nm, Forall([I, I], lambda i, j: Imp(And(ri(i, j), i > p, g.at(i).z), L[inp(i, j)]))
            yield "granted inputs still locked>=%s incl" % nm, Forall([I, I], lambda i, j: Imp(And(ri(i, j), i >= p, g.at(i).z), L[inp(i, j)]))
        if Lc.outer and Lc.pos is not None:
            q = Lc.pos
            for nm, p in Lc.outer:
                yield "this tx: inputs unlocked %s" % nm, Forall([I], lambda j: Imp(And(ri(p, j), j < q, g.at(p).z), Not(L[inp(p, j)])))
                yield "this tx: outputs created %s" % nm, Forall([I], lambda j: Imp(And(ro(p, j), j < q, c.at(p).z), U[out(p, j)]))
                yield "this tx: inputs restored %s" % nm, Forall([I], lambda j: Imp(And(ri(p, j), j < q, g.at(p).z, Not(c.at(p).z)), U[inp(p, j)]))
                yield "this tx: inputs to go locked %s" % nm, Forall([I], lambda j: Imp(And(ri(p, j), j >= q, g.at(p).z), L[inp(p, j)]))
                yield "this tx: all outputs created %s" % nm, Forall([I], lambda j: Imp(And(ro(p, j), c.at(p).z), U[out(p, j)]))
                yield "this tx: inputs locked %s" % nm, Forall([I], lambda j: Imp(And(ri(p, j), g.at(p).z), L[inp(p, j)]))


class DiscardDtx(Contract):
    fn = Q + "::discard_dtx"
    short = "locking_shard::discard_dtx"

    def modifies(self, C):
        return ["m_applied_dtxs"]

    def ensures(self, C):
        d = C.arg(0).z
        A0, A = C.old.m_applied_dtxs.dom, C.this.m_applied_dtxs.dom
        run = C.old.m_running.z
        return [("reports running", C.ret.z == run),
                ("forgets this dtx only", Forall([Hs], lambda x: A[x] == And(A0[x], Or(Not(run), x != d))))]


class CheckUnspent(Contract):
    fn = Q + "::check_unspent"
    short = "locking_shard::check_unspent"

    def ensures(self, C):
        h = C.arg(0).z
        return [("answers unspent or locked", And(C.ret.has(), C.ret.val.z == Or(C.old.m_uhs.dom[h], C.old.m_locked.dom[h])))]


class Stop(Contract):
    fn = Q + "::stop"
    short = "locking_shard::stop"

    def modifies(self, C):
        return ["m_running"]

    def ensures(self, C):
        return [("stops", Not(C.this.m_running.z))]


class CacheAdd(Contract):
    fn = "cbdc::cache_set<std::array<unsigned char, 32>, cbdc::hashing::null>::add"
    short = "cache_set::add"
    trusted = True

    def modifies(self, C):
        return ["m_vals", "m_eviction_queue"]


class LShard(Unit):
    name = "lshard"
    sources = ["src/uhs/twophase/locking_shard/locking_shard.cpp", "src/uhs/twophase/locking_shard/interface.cpp", "src/util/common/config.cpp"]
    contracts = [CheckAndLock(), LockOutputs(), ApplyOutputs(), DiscardDtx(), CheckUnspent(), Stop(), CacheAdd()]
    invariants = {Q: invariant}
    externs = {"fn": {"cbdc::transaction::validation::check_attestations": x_check_attestations,
                      "cbdc::to_string": lambda E, t, a, e, f: E.fresh_val(TOpaque("Str"))}}
    opts = {"guards": {"m_uhs": "m_mut", "m_locked": "m_mut", "m_prepared_dtxs": "m_mut", "m_applied_dtxs": "m_mut"}}


unit = LShard()
