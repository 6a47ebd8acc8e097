"""Which contracts (unit, functions), harnesses and assumptions decide each property."""
PROPS = {
    "C01": dict(
        title="A transaction passes local validation only if it is well formed and balanced",
        note="check_tx and every rule check it combines are proved for all transactions: any number of inputs, outputs and witnesses, any values (machine arithmetic, wrap-around included) and any witness bytes; every error is proved to name a rule the transaction breaks at the reported index. Assumes the library axioms and engine of dv/, that secp256k1 and SHA-256 are functions of their inputs, and that serializing inputs and outputs is a function of them.",
        jobs=[("validation", ["validation::check_tx", "validation::check_tx_structure", "validation::check_in_out_set", "validation::check_witness", "validation::check_output_value", "validation::check_input_set", "transaction::tx_id", "input::hash", "transaction::uhs_id_from_output", "transaction::input_from_output", "compact_tx::compact_tx"])], harness=["validation"],
        trusted=["secp256k1: parsing a key and verifying a signature are functions of their bytes", "CSHA256: the digest is a function of the bytes written", "make_buffer: the serialized form is a function of the value (C09)"],
        assumptions=["std::set<out_point> distinguishes exactly different outpoints (operator< is the lexicographic order)"]),
    "C03": dict(
        title="Sentinel attestations count only valid signatures of distinct configured keys",
        note="check_attestations, compact_tx::sign, verify and hash are proved for every compact transaction, attestation map, key set and threshold. Assumes the library axioms and engine of dv/, that secp256k1 and SHA-256 are functions of their inputs, and that serialization is a function of the value.",
        jobs=[("validation", ["validation::check_attestations", "compact_tx::sign", "compact_tx::verify", "compact_tx::hash"])], harness=["validation"],
        trusted=["secp256k1: parsing a key, signing and verifying are functions of their bytes", "CSHA256: the digest is a function of the bytes written", "make_buffer: the serialized form is a function of the value, of a map: of its contents (C09)"],
        assumptions=["a signature attests a compact transaction through its SHA-256 digest over id, inputs and outputs"]),
    "C02": dict(
        title="A two-phase shard never lets an output be spent twice, lost or conjured",
        note="Every obligation of the contracts of the shard's public operations is discharged for all inputs and histories (class invariant + per-operation contracts). Assumes the library axioms and engine of dv/, the attestation check as a function of its arguments, distinct inputs per transaction, fresh output ids and that the coordinator completes only granted transactions.",
        jobs=[("lshard", None)], harness=["lshard"],
        trusted=["assumed contract: transaction::validation::check_attestations is a function of (tx, keys, threshold) (verified separately under C03)",
                 "assumed contract: cache_set::add touches only the cache (verified separately under C11)"],
        assumptions=["inputs of one transaction are pairwise distinct (ensured by transaction validation, C01)",
                     "the coordinator completes only transactions every shard granted (C04)",
                     "ids of new outputs are fresh: not currently locked (they are hashes over the creating transaction)"]),
    "C04": dict(
        title="A distributed transaction is applied atomically across all affected shards",
        note="add_tx, the three phases, execute and the recovery entry points of distributed_tx are proved for every number of shards and transactions and every pattern of shard answers, shard failures and callback failures: what each shard is asked, in which order, and what is reported. Assumes the library axioms and engine of dv/, std::async tasks that run to completion (each started call counts as made where it is started), and that what is recovered was persisted by the callbacks.",
        jobs=[("dtx", None)], harness=["dtx"],
        trusted=["std::async/std::future deliver the task's result", "NuRaft headers replaced by declarations (not installed; distributed_tx calls nothing of it)",
                 "the shards' hash_in_shard_range is a function of shard and hash (verified for the real one under C02)"],
        assumptions=["the shards are distinct objects, at least one", "the registered callbacks are distinct objects", "recovered routing and flags are what the commit callback was given (indexes within the batch, one list per shard)",
                     "execute is not called again after it succeeded"]),
    "C05": dict(
        title="The atomizer admits each input into at most one block within its cache depth",
        note="insert, insert_complete, make_block, the constructor, height and pending_transactions are proved for every history (class invariant: caches per height offset, pending attestations, no input of an accepted transaction accepted again inside the window). Assumes the library axioms and engine of dv/, a transaction id standing for its content, depth below 2^62 and attestation indexes of existing inputs.",
        jobs=[("atomizer", None)], harness=["atomizer"],
        trusted=["queued tx_error values are not modified"],
        assumptions=["a transaction id determines the transaction (it is its hash)", "cache depth below 2^62; height below 2^64",
                     "attestations name inputs the transaction has (checked by the shard that attests)"]),
    "C06": dict(
        title="Runtime shard locks are exclusive and every lock request is answered once",
        note="Class invariant (exclusion, queue consistency, wound-wait order, progress) and the contract of every operation are discharged for all states and inputs, together with lock discipline (state touched only under m_mut, callbacks run without it). Assumes the library axioms and engine of dv/, a distinct callback object per request, read/write as the only lock types, and prepared tickets with disjoint updates in the replicated state recovered from.",
        jobs=[("rls", None)], harness=["rls"],
        trusted=["std::mutex/unique_lock give mutual exclusion", "logging has no effect; log::fatal ends the process"],
        assumptions=["each lock request brings its own callback object", "lock types are read or write",
                     "a recovered state's prepared tickets update disjoint keys (they held the write locks when replicated)"]),
    "C07": dict(
        title="A runtime shard's tickets prepare, commit and finish only in the legal order",
        note="Contracts of prepare, commit, rollback, finish, get_tickets and recover are discharged for all states and inputs: exact refusal conditions and reasons, refusal leaves the state unchanged, exact effects otherwise. Same assumptions as C06.",
        jobs=[("rls", None)], harness=["rls"],
        trusted=["std::mutex/unique_lock give mutual exclusion", "logging has no effect; log::fatal ends the process"],
        assumptions=["each lock request brings its own callback object", "lock types are read or write",
                     "a recovered state's prepared tickets update disjoint keys (they held the write locks when replicated)"]),
    "C08": dict(
        title="A broker commits a ticket on all of its shards or on none",
        note="18 functions of the broker (begin, try_lock, commit, rollback, finish, prepare and commit loops, every answer handler, do_recovery and the recovery answer handlers) are proved under arbitrary interleaving of shard answers, including answers given while the request is made: ghost state records what each shard was asked and answered, and the protocol (commit only when all prepared, success only when all committed, rollback never after a commit request, recovery decides from what shards reported) is an invariant of the heap of ticket states. handle_get_tickets and recover are only run by the bounded harness.",
        jobs=[("broker", None)], harness=["broker"], budget=800,
        trusted=["std::recursive_mutex gives exclusion", "handle_get_tickets and recover (bounded harness only)"],
        assumptions=["shards are distinct and answer each request at most once, in order, and only requests of the current attempt (no answers of an attempt that was rolled back arrive after its restart)",
                     "callbacks of a commit, rollback or finish request do not lock further keys for the same attempt, and the callback of a rollback does not commit the attempt being rolled back; no new lock is requested while prepare or rollback requests are being answered",
                     "callbacks given to recover use the broker only for their own ticket", "shards report to recovery no begun or wounded state for a ticket another shard committed (three-phase protocol, C07)", "the directory names an existing shard (C12)"]),
    "C09": dict(
        title="Every serialized message decodes to the value encoded, and bad input is rejected",
        note="The buffer and the buffer and size serializers are proved for every buffer, position and length: which bytes a write puts where, that reads are accepted exactly when the bytes are there, store exactly them and touch nothing outside the buffer. The formats of values (templates), the stream serializers and the messages are checked by a bounded harness against the value written.",
        jobs=[("serial", None)], harness=["serial"],
        trusted=["std::memcpy, std::vector<std::byte> (axioms)", "format.hpp templates, stream serializers and message formats (bounded harness only)"],
        assumptions=["buffers and positions written at are below 2^62 bytes", "a pointer argument points to as many bytes as the length says", "the address one past a vector's last element may be taken"]),
    "C10": dict(
        title="Hex text decodes exactly when it is valid and round-trips with its bytes",
        note="to_hex, from_hex, to_hex_prefixed, from_hex_prefixed, the hash's to_string and hash_from_hex are proved for every byte string and every text, character by character (std::string as a sequence of characters, string streams by library axioms for hex output with width/fill and for reading one or two hex digits). Assumes the library axioms and engine of dv/ and texts shorter than 2^62.",
        jobs=[("hex", None)], harness=["hex"],
        trusted=["std::stringstream hex formatting and parsing, std::string members (axioms in dv/text.py)"],
        assumptions=["texts are shorter than 2^62 characters"]),
    "C11": dict(
        title="Bounded caches keep exactly the most recent entries",
        note="cache_set::add/contains, block_cache::push_block/check_*/best_block_height and error_cache::push_errors/check_* are proved for all contents, capacities and histories (class invariants tie the indexes to the retained blocks and errors). Assumes the library axioms and engine of dv/, that every output id is created once and spent once, in a later block, and that published errors are immutable.",
        jobs=[("caches", None)], harness=["caches"], budget=800,
        trusted=["std::shared_mutex gives exclusion (cache_set)"],
        assumptions=["block cache: within the history every id is created at most once and spent at most once, and not created in the block that spends it or a later one (ids are hashes over the creating transaction; shards admit an input once)",
                     "error cache: a tx_error held by a shared_ptr<tx_error> is not modified after it is queued", "less than 2^62 retained elements"]),
    "C12": dict(
        title="Ticket numbers are unique and keys always map to one existing shard",
        note="get_ticket_number is proved under arbitrary interleaving (every access to the atomic counter may be preceded by any number of other requests; the counter may only move in one atomic step by exactly the range handed out), key_location for every key and positive shard count. Assumes the counter does not pass 2^64 and that SipHash is a function of the bytes.",
        jobs=[("parsec", None)], harness=["parsec"],
        trusted=["std::atomic<uint64_t> operations are atomic", "const_sip_hash<buffer> is a function of the buffer's bytes"],
        assumptions=["fewer than 2^64 numbers are handed out", "a directory is configured with at least one shard"]),
    "C13": dict(
        title="The wallet builds only balanced transactions from outputs it owns",
        note="19 of the wallet's functions (all that build, sign, confirm, seed and report; not the constructors, save and load) are proved for every wallet state and every argument against a class invariant: queue and set of held outputs agree element by element, the balance is their total, own keys and witness programs agree. Transactions built have equal totals, exact payee outputs, change under an own key, inputs taken from the held outputs in order and removed, and a P2PK witness with the own key's signature for every own input; a refusal changes nothing. save and load are run by the bounded harness only.",
        jobs=[("wallet", None)], harness=["wallet"], budget=850,
        trusted=["wallet::load and wallet::save (bounded harness only)", "secp256k1: every key the wallet holds is valid; a signature is a function of key and message", "std::list::remove, pop_front, std::shared_mutex (axioms)"],
        assumptions=["the total value of the outputs held and credited stays below 2^64 (TODOs in the code)", "fan's amount (count times value) is below 2^64", "fewer than 2^32 outputs per transaction", "the wallet is called from one thread at a time between its critical sections"]),
    "C14": dict(
        title="A configuration is accepted only if every component it describes is complete",
        note="read_options, load_options, check_options, every component's reader, the parser's typed getters, loadgen_seed_range and hash_in_shard_range are proved for every configuration (a map from settings to texts, numbers and decimals) and every number of instances: accepted exactly if complete, and every option holds what is configured for its instance or the default. How a line of text becomes a value, an endpoint or a key, and the names of the settings, are checked by a bounded harness against an independent reading of the same file.",
        jobs=[("config", None)], harness=["config"],
        trusted=["parser::init, parse_value, find_or_env, get_endpoint, is_key, the functions naming settings (functions of their arguments in the proof; bounded harness against an independent reading)", "logging::parse_loglevel, hash_from_hex (C10)"],
        assumptions=["the file and the environment do not change while it is read", "timeouts and distances given for raft are below 2^31"]),
    "C15": dict(
        title="An agent reports success only after its function ran and its ticket committed",
        note="Every function of agent::impl (constructor, exec and all steps, handlers, lock requests and reports) is proved against contracts over the agent's state and ghosts that record the evidence behind what it says (what the run produced, what the broker answered): for every state, every answer of the broker, a shard or the runner, whether it comes at once, later or never, and anything the agent does in between. A mock-driven harness runs whole random lives of agents (bounded) against an independent account.",
        jobs=[("agent", None)], harness=["agent"],
        trusted=["broker and runner answer a request at most once, and not after the ticket was rolled back", "std::recursive_mutex gives mutual exclusion between threads", "log::fatal ends the process"],
        assumptions=["exec is not called again while the answer to a commit is on its way", "the result callback does not call back into the agent except through exec"]),
    "C16": dict(
        title="A blocking queue delivers each item exactly once and in order",
        note="push, pop, clear, reset and the destructor of the real template are proved under arbitrary interleaving: at every acquisition of the mutex (including the return of a wait) the queue and wake flag are arbitrary under the shared invariant, and each operation's effect on them within its one critical section is specified exactly; a consumer may block only when the queue is empty and not cleared, and every change that lets a consumer go on is followed by a notification. Discharged for the FIFO instance over shared_ptr<buffer> and the priority instance over size_t with std::greater. Assumes the library axioms and engine of dv/ and the documented use of reset (no consumer inside pop).",
        jobs=[("bq", None)], harness=["bq"],
        trusted=["std::mutex gives exclusion; condition_variable::wait releases and reacquires it and returns after a notification that follows the start of the wait", "std::queue, std::priority_queue (axioms)"],
        assumptions=["reset is called only when all consumers have returned from pop (documented)"]),
    "C17": dict(
        title="A replicated shard state holds exactly the decided tickets and values",
        note="prepare, commit, finish, get_tickets and get_state of the replicated state are proved for every history; so are the shard RPC server's handlers (what is asked of the shard and of the replicated state, in which order, and what is answered) and the dispatch of replicated requests. Assumes the library axioms and engine of dv/ and that requests are applied one after another (consensus, C18).",
        jobs=[("repl", None)], harness=["repl"],
        trusted=["the shard implementation and the replicated state answer a started request exactly once (proved for the shard under C06/C07, for the state here)", "NuRaft headers replaced by declarations (not installed)", "std::mutex/unique_lock give mutual exclusion"],
        assumptions=["replicated_shard_client and NuRaft deliver each request to the state machine and return its answer (C18)"]),
}
NOT_APPLICABLE = {
    "C18": "the consensus guarantee lives in the NuRaft library, which is not installed here (src/util/raft does not compile) and is a whole-system, fault-schedule property; per-function contracts over the wrapper cannot express or decide it",
}
