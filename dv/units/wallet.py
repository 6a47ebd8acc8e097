"""the wallet: which outputs it holds, what it builds from them"""
from units.common import *
from units import validation as va
import lib

T_ = "cbdc::transaction"
Q = T_ + "::wallet"
TOP = z3.IntVal(2 ** 64)


# ---- vocabulary ---------------------------------------------------------------------------------
def S(E, w, arr, n):
    return E.uf("sum_" + w, [arr, n if z3.is_expr(n) else z3.IntVal(n)], I)


def vals_in(v):
    return va.leaf(v, lambda x: x.m_prevout_data.m_value)


def vals_out(v):
    return va.leaf(v, lambda x: x.m_value)


def Sin(E, v, n=None):
    """total value of the first n inputs of a vector or list"""
    return S(E, "in", vals_in(v), v.len if n is None else n)


def Sout(E, v, n=None):
    return S(E, "out", vals_out(v), v.len if n is None else n)


def key(v, i):
    return kt(v.T.t, v.at(i))


def kt(T, x):
    return keyterm(T, x)


def K_(s):
    return s.t[0].sort().domain()


def held(s, k):
    return s.has(k)


def stored(s, x):
    """the set holds exactly this input"""
    k = kt(s.T.k, x)
    return And(s.has(k), *[z3.Select(a, k) == b for a, b in zip(s.t[1:], x.t)])


def wc(E, pk):
    """witness commitment of a public key"""
    return E.uf("p2pk_commitment", [pk], Hs)


def inv(v, E):
    q, s = v.m_spend_queue, v.m_utxos_set
    n = q.len
    return [
        ("every queued output is held as it is", Forall([I], lambda i: Imp(frange(i, n), stored(s, q.at(i))))),
        ("no output is queued twice", Forall([I, I], lambda i, j: Imp(And(0 <= i, i < j, j < n), key(q, i) != key(q, j)), pats=lambda i, j: [(q.at(i).t[0], q.at(j).t[0])])),
        ("every output held is queued", Forall([K_(s)], lambda k: Imp(s.has(k), z3.Exists([z3.Int("w_")], And(frange(z3.Int("w_"), n), key(q, z3.Int("w_")) == k))))),
        ("as many are queued as held", n == card(s.t[0])),
        ("the balance is the total held", v.m_balance.z == Sin(E, q)),
        ("seeded outputs form a range", v.m_seed_from.z <= v.m_seed_to.z),
        ("every private key has its public key listed", card(v.m_keys.t[0]) <= v.m_pubkeys.len),
        ("own programs name own keys", Forall([Hs], lambda h: Imp(own(E, v, h), And(v.m_keys.has(v.m_witness_programs.at(h).z), wc(E, v.m_witness_programs.at(h).z) == h)))),
        ("every public key has its private key", Forall([Hs], lambda k: Imp(v.m_keys.has(k), E.uf("pubkey_of", [v.m_keys.at(k).z], Hs) == k))),
        ("own keys have their witness programs", Forall([I], lambda i: Imp(frange(i, v.m_pubkeys.len), own(E, v, wc(E, v.m_pubkeys.at(i).z))))),
    ]


def own(E, v, h):
    return v.m_witness_programs.has(h)


def frame(C, *but):
    """everything but these fields is as before"""
    return And(*[same(getattr(C.this, n), getattr(C.old, n)) for n, _ in C.this.T.fields if n not in but and getattr(C.this, n).t])


UTXO = ("m_utxos_set", "m_spend_queue", "m_balance")


def credited(t, cr, k, n):
    w = W_()
    return z3.Exists([w], And(frange(w, n), key(cr, w) == k, *[z3.Select(a, k) == b for a, b in zip(t.t[1:], cr.at(w).t)]))


class Update(Contract):
    fn, short = Q + "::update_balance", "wallet::update_balance"

    def requires(self, C):
        E = C.E
        return [("the total fits 64 bits", Sin(E, C.this.m_spend_queue) + Sin(E, C.arg(0)) < TOP)]

    def modifies(self, C):
        return list(UTXO)

    def ensures(self, C):
        cr, de, o, t = C.arg(0), C.arg(1), C.old.m_utxos_set, C.this.m_utxos_set
        isin = lambda v, k: z3.Exists([z3.Int("w_")], And(frange(z3.Int("w_"), v.len), key(v, z3.Int("w_")) == k))
        return [
            ("holds exactly what it held and was credited, less what was spent", Forall([K_(t)], lambda k: t.has(k) == And(Or(o.has(k), isin(cr, k)), Not(isin(de, k))))),
            ("what it held stays as it was", Forall([K_(t)], lambda k: Imp(And(t.has(k), o.has(k)), same_at(t, o, k)))),
            ("what is new is held as it was credited", Forall([K_(t)], lambda k: Imp(And(t.has(k), Not(o.has(k))), credited(t, cr, k, cr.len)))),
        ]

    def loopcands(self, Lc):
        E, t, o, n = Lc.E, Lc.this, Lc.old, Lc.pos
        if n is None:
            return []
        c = Lc.enum.cval if Lc.enum is not None else None
        cr, de = Lc.arg(0), Lc.arg(1)
        e = Lc.entry_vars["this"]
        s, q, s0 = t.m_utxos_set, t.m_spend_queue, e.m_utxos_set
        upto = lambda v, k, m: z3.Exists([z3.Int("w_")], And(frange(z3.Int("w_"), m), key(v, z3.Int("w_")) == k))
        out = [("frame", frame(Lc, *UTXO)),
                ("kept as it was", Forall([K_(s)], lambda k: Imp(And(s.has(k), s0.has(k)), And(*[z3.Select(a, k) == z3.Select(b, k) for a, b in zip(s.t[1:], s0.t[1:])]))))]
        out += [("credits total", Sin(E, q) <= Sin(E, e.m_spend_queue) + Sin(E, cr, n)),
                ("credits", Forall([K_(s)], lambda k: s.has(k) == Or(s0.has(k), upto(cr, k, n)))),
                ("new ones as credited", Forall([K_(s)], lambda k: Imp(And(s.has(k), Not(Lc.old.m_utxos_set.has(k))), credited(s, cr, k, n)))),
                ("new ones as credited before", Forall([K_(s)], lambda k: Imp(And(s.has(k), Not(Lc.old.m_utxos_set.has(k))), credited(s, cr, k, cr.len)))),
                ("debits total", Sin(E, q) <= Sin(E, e.m_spend_queue)),
                ("debits", Forall([K_(s)], lambda k: s.has(k) == And(s0.has(k), Not(upto(de, k, n)))))]
        return out


def W_():
    return z3.Int("w_")


def isin(v, k, lo=None, hi=None):
    """k is the outpoint of one of the inputs lo..hi of v"""
    w = W_()
    return z3.Exists([w], And((0 if lo is None else lo) <= w, 0 <= w, w < (v.len if hi is None else hi), key(v, w) == k))


def same_at(t, o, k):
    return And(*[z3.Select(a, k) == z3.Select(b, k) for a, b in zip(t.t[1:], o.t[1:])])


def times(E, n, v):
    return E.uf("times", [n if z3.is_expr(n) else z3.IntVal(n), v], I)


def seeds(E, v):
    """total value of the seeded outputs not spent yet"""
    return times(E, v.m_seed_to.z - v.m_seed_from.z, v.m_seed_value.z)


def funds(E, v):
    return v.m_balance.z + seeds(E, v)


def point(s, tid, i):
    return K_(s).constructor(0)(tid, i)


class Commitment(Contract):
    """proved for its uses in unit validation; here the commitment is a function of the key"""
    fn, short, trusted = T_ + "::validation::get_p2pk_witness_commitment", "get_p2pk_witness_commitment", True

    def ensures(self, C):
        return [("a function of the key", C.ret.z == wc(C.E, C.arg(0).z))]


def trust(K):
    """the contract of a function verified in another unit"""
    K.trusted = True
    return K


class ConfirmInputs(Contract):
    fn, short = Q + "::confirm_inputs", "wallet::confirm_inputs"

    def requires(self, C):
        return [("the total fits 64 bits", Sin(C.E, C.this.m_spend_queue) + Sin(C.E, C.arg(0)) < TOP)]

    def modifies(self, C):
        return list(UTXO)

    def ensures(self, C):
        cr, o, t = C.arg(0), C.old.m_utxos_set, C.this.m_utxos_set
        return [("adds the inputs credited, each once", Forall([K_(t)], lambda k: t.has(k) == Or(o.has(k), isin(cr, k)))),
                ("what it held stays as it was", Forall([K_(t)], lambda k: Imp(o.has(k), same_at(t, o, k))))]


class Confirm(Contract):
    fn, short = Q + "::confirm_transaction", "wallet::confirm_transaction"

    def requires(self, C):
        return [("the total fits 64 bits", Sin(C.E, C.this.m_spend_queue) + Sout(C.E, C.arg(0).m_outputs) < TOP), ("fewer than 2^32 outputs", C.arg(0).m_outputs.len < 2 ** 32)]

    def modifies(self, C):
        return list(UTXO)

    def ensures(self, C):
        E, tx, o, t = C.E, C.arg(0), C.old.m_utxos_set, C.this.m_utxos_set
        return [("adds the outputs payable to the wallet and removes the inputs spent", Forall([K_(t)], lambda k: t.has(k) == And(Or(o.has(k), paid(E, C.old, t, tx, k)), Not(isin(tx.m_inputs, k))))),
                ("what it held stays as it was", Forall([K_(t)], lambda k: Imp(And(o.has(k), t.has(k)), same_at(t, o, k)))),
                ("what is new is held as the transaction made it", Forall([K_(t)], lambda k: Imp(And(t.has(k), Not(o.has(k))), z3.Exists([W_()], And(
                    frange(W_(), tx.m_outputs.len), k == point(t, va.tid(E, tx), W_()), stored_out(t, k, tx.m_outputs.at(W_())))))))]

    def loopcands(self, Lc):
        E, tx, n = Lc.E, Lc.arg(0), Lc.pos
        s = Lc.this.m_utxos_set
        for nm, v, v0 in Lc.locals(TVec):
            if not isinstance(v.T.t, TRec) or not v.T.t.q.endswith("::input") or n is None:
                continue
            yield "own outputs so far are there " + nm, Forall([I], lambda i: Imp(And(frange(i, n), own(E, Lc.this, tx.m_outputs.at(i).m_witness_program_commitment.z)), isin(v, point(s, va.tid(E, tx), i))), lambda i: [tx.m_outputs.at(i).m_witness_program_commitment.z])
            yield "only own outputs " + nm, Forall([I], lambda i: Imp(frange(i, v.len), And(
                v.at(i).m_prevout.m_tx_id.z == va.tid(E, tx), frange(v.at(i).m_prevout.m_index.z, n), own(E, Lc.this, tx.m_outputs.at(v.at(i).m_prevout.m_index.z).m_witness_program_commitment.z),
                same(v.at(i).m_prevout_data, tx.m_outputs.at(v.at(i).m_prevout.m_index.z)))))
            yield "total " + nm, Sin(E, v) <= Sout(E, tx.m_outputs, n)


def paid(E, w, s, tx, k):
    x = W_()
    return z3.Exists([x], And(frange(x, tx.m_outputs.len), k == point(s, va.tid(E, tx), x), own(E, w, tx.m_outputs.at(x).m_witness_program_commitment.z)))


def stored_out(s, k, out):
    """the set's element under k carries this output"""
    el = Val(s.T.k, [z3.Select(a, k) for a in s.t[1:]])
    return same(el.m_prevout_data, out)


class Balance(Contract):
    fn, short = Q + "::balance", "wallet::balance"

    def requires(self, C):
        return [("the total fits 64 bits", funds(C.E, C.this) < TOP)]

    def ensures(self, C):
        return [("the sum of the outputs held", C.ret.z == Sin(C.E, C.old.m_spend_queue) + seeds(C.E, C.old))]


class Count(Contract):
    fn, short = Q + "::count", "wallet::count"

    def requires(self, C):
        return [("counts fit", card(C.this.m_utxos_set.t[0]) + C.this.m_seed_to.z < TOP)]

    def ensures(self, C):
        return [("the number of outputs held", C.ret.z == card(C.old.m_utxos_set.t[0]) + C.old.m_seed_to.z - C.old.m_seed_from.z)]


class Spendable(Contract):
    fn, short = Q + "::is_spendable", "wallet::is_spendable"

    def ensures(self, C):
        return [("exactly what pays to one of its keys", C.ret.z == own(C.E, C.old, C.arg(0).m_prevout_data.m_witness_program_commitment.z))]


class SeedRo(Contract):
    fn, short = Q + "::seed_readonly", "wallet::seed_readonly"

    def requires(self, C):
        return [("a range", C.arg(2).z <= C.arg(3).z)]

    def modifies(self, C):
        return ["m_seed_from", "m_seed_to", "m_seed_value", "m_seed_witness_commitment"]

    def ensures(self, C):
        t = C.this
        return [("holds the outputs of that range", And(t.m_seed_from.z == C.arg(2).z, t.m_seed_to.z == C.arg(3).z, t.m_seed_value.z == C.arg(1).z, t.m_seed_witness_commitment.z == C.arg(0).z))]


class Seed(Contract):
    fn, short = Q + "::seed", "wallet::seed"

    def modifies(self, C):
        return list(SeedRo.modifies(self, C)) + list(KEYS)

    def ensures(self, C):
        E, t, o = C.E, C.this, C.old
        h = wc(E, E.uf("pubkey_of", [C.arg(0).z], Hs))
        return [("only a range which is not empty, and only before it has keys", C.ret.z == And(C.arg(2).z < C.arg(3).z, card(o.m_keys.t[0]) == 0)),
                ("holds the outputs of that range", Imp(C.ret.z, And(t.m_seed_from.z == C.arg(2).z, t.m_seed_to.z == C.arg(3).z, t.m_seed_value.z == C.arg(1).z, t.m_seed_witness_commitment.z == h, own(E, t, h)))),
                ("a refused seed changes nothing", Imp(Not(C.ret.z), frame(C)))]


KEYS = ("m_keys", "m_pubkeys", "m_witness_programs")


class GenKey(Contract):
    fn, short = Q + "::generate_key", "wallet::generate_key"

    def modifies(self, C):
        return list(KEYS) + ["m_shuffle"]

    def ensures(self, C):
        E = C.E
        return [("the key is the wallet's", own(E, C.this, wc(E, C.ret.z))),
                ("its keys stay its keys", Forall([Hs], lambda h: Imp(own(E, C.old, h), own(E, C.this, h))))]


class Mint(Contract):
    fn, short = Q + "::mint_new_coins", "wallet::mint_new_coins"

    def modifies(self, C):
        return list(KEYS) + ["m_shuffle"]

    def ensures(self, C):
        E, r = C.E, C.ret
        return [("no input", r.m_inputs.len == 0), ("as many outputs as asked for", r.m_outputs.len == C.arg(0).z),
                ("each of the value asked for, payable to the wallet", Forall([I], lambda i: Imp(frange(i, r.m_outputs.len), And(r.m_outputs.at(i).m_value.z == C.arg(1).z, own(E, C.this, r.m_outputs.at(i).m_witness_program_commitment.z)))))]

    def loopcands(self, Lc):
        E = Lc.E
        for nm, v, v0 in Lc.locals(TRec):
            if not v.T.q.endswith("full_tx"):
                continue
            for nn, n, _ in Lc.locals(TInt):
                yield "outputs so far %s %s" % (nm, nn), v.m_outputs.len == n.z
            yield "no input " + nm, v.m_inputs.len == 0
            yield "values " + nm, Forall([I], lambda i: Imp(frange(i, v.m_outputs.len), v.m_outputs.at(i).m_value.z == Lc.arg(1).z))
            yield "own " + nm, Forall([I], lambda i: Imp(frange(i, v.m_outputs.len), own(E, Lc.this, v.m_outputs.at(i).m_witness_program_commitment.z)))
        yield "frame", frame(Lc, *(KEYS + ("m_shuffle",)))


SEEDS = ("m_seed_from",)


def seeded(w, x):
    """x carries what a seeded output carries"""
    return And(x.m_prevout.m_index.z == 0, x.m_prevout_data.m_value.z == w.m_seed_value.z, x.m_prevout_data.m_witness_program_commitment.z == w.m_seed_witness_commitment.z)


class SeedTx(Contract):
    fn, short = Q + "::create_seeded_transaction", "wallet::create_seeded_transaction"

    def ensures(self, C):
        o, r = C.old, C.ret
        t = r.val
        return [("as long as the wallet was seeded", r.has() == (o.m_seed_from.z != o.m_seed_to.z)),
                ("one output of the seed value, under the seed's commitment", Imp(r.has(), And(t.m_outputs.len == 1, t.m_outputs.at(0).m_value.z == o.m_seed_value.z, t.m_outputs.at(0).m_witness_program_commitment.z == o.m_seed_witness_commitment.z))),
                ("one input naming the seed", Imp(r.has(), And(t.m_inputs.len == 1, t.m_inputs.at(0).m_prevout.m_index.z == C.arg(0).z, t.m_inputs.at(0).m_prevout_data.m_value.z == o.m_seed_value.z)))]


class SeedIn(Contract):
    fn, short = Q + "::create_seeded_input", "wallet::create_seeded_input"

    def ensures(self, C):
        o, r = C.old, C.ret
        return [("as long as the wallet was seeded", r.has() == (o.m_seed_from.z != o.m_seed_to.z)),
                ("refers to the seeded output", Imp(r.has(), seeded(o, r.val)))]


def signed(E, w, a, b, i):
    """witness i of b is the P2PK program of the key input i of a pays to and its signature of a's id"""
    h = a.m_inputs.at(i).m_prevout_data.m_witness_program_commitment.z
    pk = w.m_witness_programs.at(h).z
    sig = E.uf("schnorr_sign", [va.tid(E, a), E.uf("keypair_of", [w.m_keys.at(pk).z], usort("Keypair"))], va.Ss)
    wt = b.m_witness.at(i)
    return Imp(own(E, w, h), And(wt.len == 97, wt.at(0).z == 0,
        Forall([I], lambda j: Imp(And(1 <= j, j < 33), wt.at(j).z == hbyte(E, "Hash", pk, j - 1)), lambda j: [wt.at(j).z]),
        Forall([I], lambda j: Imp(And(33 <= j, j < 97), wt.at(j).z == hbyte(E, "Sig", sig, j - 33)), lambda j: [wt.at(j).z])))


def hbyte(E, s, h, i):
    return E.uf("elem_" + s, [h, i], I)


def opaque_bytes(E, p, e, f):
    if isinstance(p, Val) and p.t and z3.is_app(p.t[0]) and p.t[0].decl().name() in ("data_Hash_0", "data_Sig_0"):
        s = p.t[0].decl().name().split("_")[1]
        return lambda i: hbyte(E, s, p.t[0].arg(0), i)
    raise lib.U()("raw bytes of %s" % p)


def keypair(E, this, args, e, f):
    """assumed: the keys the wallet holds are valid ones"""
    va.keypair(E, this, args, e, f)
    return Val(TInt(32, True), [z3.IntVal(1)])


class Sign(Contract):
    """only witnesses change; an input paying to one of its keys gets that key's signature of the id"""
    fn, short = Q + "::sign", "wallet::sign"

    def modifies_args(self, C):
        return [0]

    def ensures(self, C):
        a, b = C.arg(0), C.post_arg(0)
        return [("spends and pays the same", And(same(a.m_inputs, b.m_inputs), same(a.m_outputs, b.m_outputs))),
                ("a witness for each input", b.m_witness.len == a.m_inputs.len),
                ("own inputs are signed with their key", Forall([I], lambda i: Imp(frange(i, a.m_inputs.len), signed(C.E, C.old, a, b, i))))]

    def loopcands(self, Lc):
        a, b = Lc.arg(0), Lc.cur_arg(0)
        return [("spends and pays the same", And(same(a.m_inputs, b.m_inputs), same(a.m_outputs, b.m_outputs))), ("a witness for each", b.m_witness.len == a.m_inputs.len)] + \
            [("signed so far " + nn, Forall([I], lambda i: Imp(frange(i, n.z), signed(Lc.E, Lc.old, a, b, i)))) for nn, n, _ in Lc.locals(TInt)]


def taken(E, o, t, ins, total, fits=True):
    """ins are outputs the wallet held, seeded ones first, and the wallet no longer holds them"""
    q0, q1, s0, s1 = o.m_spend_queue, t.m_spend_queue, o.m_utxos_set, t.m_utxos_set
    ns = t.m_seed_from.z - o.m_seed_from.z
    nq = ins.len - ns
    return [
        ("seeded outputs are spent in order", And(o.m_seed_from.z <= t.m_seed_from.z, t.m_seed_from.z <= t.m_seed_to.z, Forall([I], lambda i: Imp(frange(i, ns), seeded(o, ins.at(i)))))),
        ("the others are the first of the queue", And(0 <= nq, nq <= q0.len, q1.len == q0.len - nq, Forall([I], lambda i: Imp(And(ns <= i, i < ins.len), same(ins.at(i), q0.at(i - ns))), lambda i: [ins.at(i).t[0]]))),
        ("those left stay queued in order", Forall([I], lambda i: Imp(frange(i, q1.len), same(q1.at(i), q0.at(i + nq))), lambda i: [q1.at(i).t[0]])),
        ("what is spent is no longer held, the rest is", Forall([K_(s1)], lambda k: s1.has(k) == And(s0.has(k), Not(isin(ins, k, ns))))),
        ("the rest stays as it was", Forall([K_(s1)], lambda k: Imp(s1.has(k), same_at(s1, s0, k)))),
        ("their total", total == Sin(E, ins)),
        ("the funds decrease by it", funds(E, t) == funds(E, o) - total),
    ]


class Accumulate(Contract):
    fn, short = Q + "::accumulate_inputs", "wallet::accumulate_inputs"

    def requires(self, C):
        return [("funds fit 64 bits", funds(C.E, C.this) < TOP)]

    def modifies(self, C):
        return list(UTXO) + list(SEEDS)

    def ensures(self, C):
        E, o, t, r = C.E, C.old, C.this, C.ret
        tx, total = r.val.first, r.val.second.z
        return [("refused exactly when the funds do not suffice", r.has() == (funds(E, o) >= C.arg(0).z)),
                ("a refusal changes nothing", Imp(Not(r.has()), And(frame(C)))),
                ("no output yet", Imp(r.has(), tx.m_outputs.len == 0)),
                ("enough", Imp(r.has(), total >= C.arg(0).z))] + [(n, Imp(r.has(), f)) for n, f in taken(E, o, t, tx.m_inputs, total)]

    def loopcands(self, Lc):
        yield from picking(Lc)


def picking(Lc):
    E, o, t = Lc.E, Lc.old, Lc.this
    q0, q1, s0, s1 = o.m_spend_queue, t.m_spend_queue, o.m_utxos_set, t.m_utxos_set
    yield "frame", frame(Lc, *(UTXO + SEEDS))
    ns = t.m_seed_from.z - o.m_seed_from.z
    for nm, v, _ in Lc.locals(TRec):
        if not v.T.q.endswith("full_tx"):
            continue
        ins = v.m_inputs
        yield "no output " + nm, v.m_outputs.len == 0
        yield "seeded first " + nm, Forall([I], lambda i: Imp(frange(i, ns), seeded(o, ins.at(i))))
        yield "only seeded " + nm, ins.len == ns
        yield "seeds total " + nm, Sin(E, ins) == times(E, ns, o.m_seed_value.z)
        yield "rest of the queue " + nm, Forall([I], lambda i: Imp(And(ns <= i, i < ins.len), same(ins.at(i), q0.at(i - ns))), lambda i: [ins.at(i).t[0]])
        yield "rest of the queue, by queue " + nm, Forall([I], lambda j: Imp(frange(j, ins.len - ns), same(ins.at(j + ns), q0.at(j))), lambda j: [q0.at(j).t[0]])
        yield "in the queue " + nm, And(ns <= ins.len, ins.len - ns <= q0.len)
        yield "picked total " + nm, Sin(E, ins) == times(E, ns, o.m_seed_value.z) + Sin(E, q0, ins.len - ns)
        if Lc.pos is not None:
            yield "picked so far " + nm, ins.len == ns + Lc.pos
            yield "left not spent " + nm, Forall([I], lambda w: Imp(And(ns <= w, w < Lc.pos), Not(s1.has(key(ins, w)))), lambda w: [ins.at(w).t[0]])
            yield "left were held " + nm, Forall([K_(s1)], lambda k: Imp(s1.has(k), s0.has(k)))
            yield "gone are spent " + nm, Forall([K_(s1)], lambda k: Imp(And(s0.has(k), Not(s1.has(k))), isin(ins, k, ns, Lc.pos)))
            yield "left in order " + nm, Forall([I], lambda i: Imp(frange(i, q1.len), same(q1.at(i), q0.at(i + Lc.pos - ns))), lambda i: [q1.at(i).t[0]])
            yield "left count " + nm, q1.len == q0.len - Lc.pos + ns
            yield "left balance " + nm, Sin(E, q1) == Sin(E, q0) - Sin(E, q0, Lc.pos - ns)
        for nn, n, _ in Lc.locals(TInt):
            yield "total %s %s" % (nm, nn), n.z == Sin(E, ins)
            yield "seeds %s %s" % (nm, nn), n.z == ns
    yield "left as it was", Forall([K_(s1)], lambda k: Imp(s1.has(k), same_at(s1, s0, k)))


class SendTo(Contract):
    fn, short, nparams, ptypes = Q + "::send_to", "wallet::send_to(amount)", 3, None

    def requires(self, C):
        return [("funds fit 64 bits", funds(C.E, C.this) < TOP)]

    def modifies(self, C):
        return list(UTXO) + list(SEEDS) + list(KEYS) + ["m_shuffle"]

    def ensures(self, C):
        E, o, t, r = C.E, C.old, C.this, C.ret
        tx, am = r.val, C.arg(0).z
        outs = tx.m_outputs
        total = Sin(E, tx.m_inputs)
        return [("refused exactly when the funds do not suffice", r.has() == (funds(E, o) >= am)),
                ("a refusal changes nothing", Imp(Not(r.has()), frame(C))),
                ("pays the amount to the payee", Imp(r.has(), And(outs.len >= 1, outs.at(0).m_value.z == am, outs.at(0).m_witness_program_commitment.z == wc(E, C.arg(1).z)))),
                ("returns the difference to the wallet", Imp(r.has(), If(total > am, And(outs.len == 2, outs.at(1).m_value.z == total - am, own(E, t, outs.at(1).m_witness_program_commitment.z)), outs.len == 1))),
                ("inputs and outputs have the same total", Imp(r.has(), total == Sout(E, outs)))] + \
               [(n, Imp(r.has(), f)) for n, f in taken(E, o, t, tx.m_inputs, total)]


class Fan(Contract):
    fn, short = Q + "::fan", "wallet::fan"

    def requires(self, C):
        return [("funds fit 64 bits", funds(C.E, C.this) < TOP), ("the amount fits 64 bits", times(C.E, C.arg(0).z, C.arg(1).z) < TOP)]

    modifies = SendTo.modifies

    def ensures(self, C):
        E, o, t, r = C.E, C.old, C.this, C.ret
        tx, am = r.val, times(E, C.arg(0).z, C.arg(1).z)
        outs, n = tx.m_outputs, C.arg(0).z
        total = Sin(E, tx.m_inputs)
        ch = outs.len - n
        return [("refused exactly when the funds do not suffice", r.has() == (funds(E, o) >= am)),
                ("a refusal changes nothing", Imp(Not(r.has()), frame(C))),
                ("pays the outputs asked for", Imp(r.has(), Forall([I], lambda i: Imp(And(ch <= i, i < outs.len), And(outs.at(i).m_value.z == C.arg(1).z, outs.at(i).m_witness_program_commitment.z == wc(E, C.arg(2).z)))))),
                ("returns the difference to the wallet", Imp(r.has(), If(total > am, And(ch == 1, outs.at(0).m_value.z == total - am, own(E, t, outs.at(0).m_witness_program_commitment.z)), ch == 0))),
                ("inputs and outputs have the same total", Imp(r.has(), total == Sout(E, outs)))] + \
               [(n_, Imp(r.has(), f)) for n_, f in taken(E, o, t, tx.m_inputs, total)]

    def loopcands(self, Lc):
        E = Lc.E
        for root, v in E.vars.items():
            e = Lc.entry_vars.get(root)
            if e is None or not isinstance(v, Val) or not isinstance(v.T, TOpt):
                continue
            try:
                a, b = v.val.first, e.val.first
            except (AttributeError, KeyError):
                continue
            for nn, n, _ in Lc.locals(TInt):
                yield "outputs so far %s" % nn, a.m_outputs.len == b.m_outputs.len + n.z
                yield "outputs total %s" % nn, Sout(E, a.m_outputs) == Sout(E, b.m_outputs) + times(E, n.z, Lc.arg(1).z)
            yield "outputs kept", Forall([I], lambda i: Imp(frange(i, b.m_outputs.len), same(a.m_outputs.at(i), b.m_outputs.at(i))))
            yield "outputs paid", Forall([I], lambda i: Imp(And(b.m_outputs.len <= i, i < a.m_outputs.len), And(a.m_outputs.at(i).m_value.z == Lc.arg(1).z, a.m_outputs.at(i).m_witness_program_commitment.z == wc(E, Lc.arg(2).z))))
            yield "inputs kept", same(a.m_inputs, b.m_inputs)


class SendCounts(Contract):
    fn, short, nparams = Q + "::send_to", "wallet::send_to(counts)", 4

    def requires(self, C):
        return [("funds fit 64 bits", funds(C.E, C.this) < TOP), ("at least one input and output", And(C.arg(0).z > 0, C.arg(1).z > 0)),
                ("counts fit", card(C.this.m_utxos_set.t[0]) + C.this.m_seed_to.z < TOP)]

    def modifies(self, C):
        return list(UTXO) + list(SEEDS)

    def ensures(self, C):
        E, o, t, r = C.E, C.old, C.this, C.ret
        tx = r.val
        outs = tx.m_outputs
        total = Sin(E, tx.m_inputs)
        return [("more inputs than are held are refused", Imp(r.has(), card(o.m_utxos_set.t[0]) + o.m_seed_to.z - o.m_seed_from.z >= C.arg(0).z)),
                ("a refusal changes nothing", Imp(Not(r.has()), frame(C))),
                ("inputs and outputs as many as asked for", Imp(r.has(), And(tx.m_inputs.len == C.arg(0).z, outs.len == C.arg(1).z))),
                ("all goes to the payee", Imp(r.has(), Forall([I], lambda i: Imp(frange(i, outs.len), outs.at(i).m_witness_program_commitment.z == wc(E, C.arg(2).z))))),
                ("inputs and outputs have the same total", Imp(r.has(), total == Sout(E, outs)))] + \
               [(n_, Imp(r.has(), f)) for n_, f in taken(E, o, t, tx.m_inputs, total)]

    def loopcands(self, Lc):
        E = Lc.E
        paying = [x for x in Lc.locals(TRec) if x[1].T.q.endswith("full_tx") and x[2] is not None and not z3.eq(x[1].m_outputs.len, x[2].m_outputs.len)]
        if not paying:
            yield from picking(Lc)
            for nm, v, v0 in Lc.locals(TRec):
                if v.T.q.endswith("full_tx"):
                    yield "inputs asked for " + nm, v.m_inputs.len <= Lc.arg(0).z
        for nm, v, v0 in paying:
            outs = v.m_outputs
            yield "outputs asked for " + nm, outs.len <= Lc.arg(1).z
            yield "inputs kept " + nm, same(v.m_inputs, v0.m_inputs)
            yield "payee " + nm, Forall([I], lambda i: Imp(frange(i, outs.len), outs.at(i).m_witness_program_commitment.z == wc(E, Lc.arg(2).z)))
            for nn, n, n0 in Lc.locals(TInt):
                if n0 is not None and z3.eq(n.z, n0.z):
                    continue
                yield "outputs so far %s %s" % (nm, nn), outs.len == n.z
                yield "left to pay %s %s" % (nm, nn), n.z + Sout(E, outs) == Sin(E, v.m_inputs)
                for n2, m, _ in Lc.locals(TInt):
                    if m is not n:
                        yield "paid %s %s %s" % (nm, nn, n2), Imp(n.z < Lc.arg(1).z, Sout(E, outs) == times(E, n.z, m.z))
                        yield "paid up %s %s %s" % (nm, nn, n2), Imp(n.z == Lc.arg(1).z, Sout(E, outs) == Sin(E, v.m_inputs))


class Export(Contract):
    fn, short = Q + "::export_send_inputs", "wallet::export_send_inputs"

    def requires(self, C):
        return [("fewer than 2^32 outputs", C.arg(0).m_outputs.len < 2 ** 32)]

    def ensures(self, C):
        return [(n.strip(), f) for n, f in exported(C.E, C.arg(0), wc(C.E, C.arg(1).z), C.ret, C.arg(0).m_outputs.len)]

    def loopcands(self, Lc):
        if Lc.pos is None:
            return
        for nm, v, v0 in Lc.locals(TVec):
            if isinstance(v.T.t, TRec) and v.T.t.q.endswith("::input"):
                for n, f in exported(Lc.E, Lc.arg(0), wc(Lc.E, Lc.arg(1).z), v, Lc.pos):
                    yield n + nm, f


def exported(E, tx, h, v, n):
    """v lists the first n outputs of tx which pay to h"""
    T = va.tid(E, tx)
    at = lambda i: v.at(i).m_prevout.m_index.z
    wt = lambda i: tx.m_outputs.at(i).m_witness_program_commitment.z
    return [("every output paying the payee ", Forall([I], lambda i: Imp(And(frange(i, n), wt(i) == h), z3.Exists([W_()], And(frange(W_(), v.len), at(W_()) == i))), lambda i: [wt(i)])),
            ("only those, as they are ", Forall([I], lambda i: Imp(frange(i, v.len), And(frange(at(i), n), wt(at(i)) == h, v.at(i).m_prevout.m_tx_id.z == T, same(v.at(i).m_prevout_data, tx.m_outputs.at(at(i))))), lambda i: [at(i)])),
            ("each once ", Forall([I, I], lambda i, j: Imp(And(0 <= i, i < j, j < v.len), at(i) < at(j)), pats=lambda i, j: [(at(i), at(j))]))]


def draw(E, d, args, e, f):
    """a number drawn from uniform_int_distribution(a, b)"""
    lo, hi = d.t[0].arg(0), d.t[0].arg(1)
    r = E.fresh_val(TInt(64, False), "drawn")
    E.assume(Imp(lo <= hi, And(lo <= r.z, r.z <= hi)))
    return r


class Wallet(Unit):
    name = "wallet"
    sources = ["src/uhs/transaction/wallet.cpp"]
    extra_args = ("-include", "chrono", "-include", va.SHIM)
    keyproj = {T_ + "::input": "m_prevout"}
    overrides = {"cbdc::buffer": TOpaque("Buf"), "std::array<unsigned char, 64>": TOpaque("Sig"),
                 "std::uniform_int_distribution<unsigned long>": TOpaque("Dist"), "std::uniform_int_distribution<unsigned char>": TOpaque("ByteDist"),
                 "secp256k1_keypair": TOpaque("Keypair")}
    contracts = [Update(), ConfirmInputs(), Confirm(), Balance(), Count(), Spendable(), SeedRo(), Seed(), GenKey(), Mint(), SeedTx(), SeedIn(), Sign(), Accumulate(), SendTo(), Fan(), SendCounts(), Export(),
                 trust(va.TxId()), trust(va.FromOutput()), trust(va.FromOutput2()), Commitment()]
    invariants = {Q: inv}
    opts = {"guards": {"m_utxos_set": "m_utxos_mut", "m_spend_queue": "m_utxos_mut", "m_balance": "m_utxos_mut",
                       "m_keys": "m_keys_mut", "m_pubkeys": "m_keys_mut", "m_witness_programs": "m_keys_mut"}}
    externs = {"method": {}, "fn": {"cbdc::pubkey_from_privkey": va.pubkey_of, "secp256k1_keypair_create": keypair, "secp256k1_schnorrsig_sign": va.sign}, "bytes_of": opaque_bytes, "mul": times,
               "callable": {"Dist": draw, "ByteDist": lambda E, d, args, e, f: E.fresh_val(TInt(8, False), "random")},
               "range_fill": ("Hash",),
               "div": lambda E, a, b: E.uf("quot", [a, b], I)}
    def loopcands(self, Lc):
        try:
            return [("class: " + n, f) for n, f in inv(Lc.this, Lc.E)]
        except (AttributeError, KeyError):
            return []

    def axioms(self, E):
        A_ = z3.ArraySort(I, I)
        a = z3.Const("a_", A_)
        i, j, n, x = z3.Ints("i_ j_ n_ x_")
        out = []
        pos = lambda t: If(t >= 0, t, 0)    # values are unsigned
        for w in ("in", "out"):
            s = lambda x, k, w=w: S(E, w, x, k)
            wo = E.uf("without_Int", [a, j], A_)
            out += [z3.ForAll([a], s(a, z3.IntVal(0)) == 0, patterns=[s(a, z3.IntVal(0))]),
                    z3.ForAll([a, i], Imp(i >= 0, s(a, i + 1) == s(a, i) + pos(z3.Select(a, i))), patterns=[z3.MultiPattern(s(a, i), z3.Select(a, i))]),
                    # elements behind the first n do not count (lemma, by induction on n)
                    z3.ForAll([a, j, x, n], And(Imp(And(0 <= n, n <= j), s(z3.Store(a, j, x), n) == s(a, n)),
                                                Imp(And(0 <= j, n == j + 1), s(z3.Store(a, j, x), n) == s(a, j) + pos(x))), patterns=[s(z3.Store(a, j, x), n)]),
                    z3.ForAll([a, n], Imp(n >= 0, s(a, n) >= 0), patterns=[s(a, n)]),
                    z3.ForAll([a, j, n], Imp(And(0 <= j, j <= n), s(a, j) <= s(a, n)), patterns=[z3.MultiPattern(s(a, j), s(a, n))]),
                    # taking out element j (lemma on sums, by induction on n)
                    z3.ForAll([a, j, n, i], Imp(And(0 <= j, j < n, i == n - 1), s(wo, i) == s(a, n) - pos(z3.Select(a, j))), patterns=[z3.MultiPattern(s(wo, i), s(a, n))])]
        n, v, u, m = z3.Ints("n_ v_ u_ m_")
        T = lambda n_, v_: times(E, n_, v_)
        q = E.uf("quot", [n, v], I)
        out += [z3.ForAll([n, u, m, v], Imp(And(0 <= n, 0 <= u, m == n + u), T(m, v) == T(n, v) + T(u, v)), patterns=[z3.MultiPattern(T(n, v), T(u, v), T(m, v))]),
                z3.ForAll([v], T(0, v) == 0, patterns=[T(z3.IntVal(0), v)]),
                z3.ForAll([n, v], Imp(And(n >= 0, v >= 0), T(n, v) >= 0), patterns=[T(n, v)]),
                z3.ForAll([n, u, v], Imp(And(0 <= n, n <= u, v >= 0), T(n, v) <= T(u, v)), patterns=[z3.MultiPattern(T(n, v), T(u, v))]),
                z3.ForAll([n, u, v], Imp(And(0 <= n, u == n + 1), T(u, v) == T(n, v) + v), patterns=[z3.MultiPattern(T(n, v), T(u, v))]),
                z3.ForAll([n, v], Imp(And(n >= 0, v > 0), And(0 <= q, q <= n, T(v, q) <= n, n < T(v, q) + v)), patterns=[q])]
        return out


unit = Wallet()
