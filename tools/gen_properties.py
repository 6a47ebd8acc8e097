#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here because JSON lines are hard to edit)."""
import json, os
T = "src/uhs/twophase/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))


p("C01", "A transaction passes local validation only if it is well formed and balanced",
  "Validating a full transaction reports no error exactly when it has at least one input and one output, exactly as many witnesses as inputs, no two inputs spending the same output, no zero-valued output, no total that overflows 64 bits, inputs and outputs of equal total value, and a witness program for every input that is well formed, matches the spent output's commitment and carries a valid signature. The error reported names a rule the transaction really breaks, and the index in a per-input or per-output error is that of an offending element. The transaction id commits to all inputs and outputs, and the compact form carries that id, the hash of each input and one id per output, in order.",
  ["inputs"], "every transaction: any number of inputs, outputs and witnesses, any values up to 2^64-1, any bytes in witness programs",
  "Unit tests sample a handful of transactions of one or two inputs; overflow, duplicate inputs far apart and mixed errors in large transactions are only reachable by quantifying over all of them (and the validation sources do not even build in this environment's test binary).",
  ["src/uhs/transaction/validation.cpp", "src/uhs/transaction/transaction.cpp"],
  [("check_tx and the structure checks it combines", "validation.cpp"), ("in-out-set balance with overflow tests", "validation.cpp: check_in_out_set")],
  observe=["result of validation::check_tx"])

p("C02", "A two-phase shard never lets an output be spent twice, lost or conjured",
  "A locking shard grants a transaction of a distributed batch exactly when it is sufficiently attested and every input this shard owns is currently unspent, and from then on no other transaction is granted any of those inputs until the batch is applied. Applying a batch destroys the inputs and creates the outputs of exactly its completed transactions, gives the inputs of its cancelled granted transactions back, releases nothing held for other batches, and reports only completed transactions as confirmed. Repeating a lock or apply request has no further effect and repeats the answer, and a stopped shard refuses and changes nothing.",
  ["histories", "inputs"], "every sequence of lock, apply and discard requests over any batches of any size, any output range",
  "The shard has no stable test in this tree; upstream tests run a few scripted batches, while a double spend needs a particular interleaving of overlapping batches with partial grants.",
  [T + "locking_shard/locking_shard.cpp", T + "locking_shard/locking_shard.hpp", T + "locking_shard/interface.cpp"],
  [("lock_outputs moves granted inputs from unspent to locked", "locking_shard.cpp"), ("apply_outputs settles a prepared batch", "locking_shard.cpp")],
  state=[("unspent set", "outputs that exist and are not reserved", "locking_shard.hpp"), ("locked set", "outputs reserved by a prepared batch", "locking_shard.hpp"), ("prepared batches", "granted/refused flags per transaction", "locking_shard.hpp")],
  observe=["results of lock_outputs, apply_outputs, check_unspent and check_tx_id"])

p("C03", "Sentinel attestations count only valid signatures of distinct configured keys",
  "A compact transaction is accepted as attested exactly when at least the demanded number of attestations is present and every attestation present is under a key of the configured set, one per key, with a signature that verifies over this transaction's id, inputs and outputs. Attestations of unknown keys, invalid signatures or signatures over another transaction never help to reach the threshold. Attesting signs id, inputs and outputs but not the attestations gathered so far, so attestations made in any order stay valid.",
  ["inputs", "configurations"], "every compact transaction, attestation map, key set and threshold",
  "Tests cover one or two attestations; the counting rule must hold for every combination of valid, invalid, unknown and missing attestations and every threshold.",
  ["src/uhs/transaction/validation.cpp", "src/uhs/transaction/transaction.cpp"],
  [("check_attestations", "validation.cpp"), ("compact_tx::verify", "transaction.cpp")],
  observe=["result of validation::check_attestations"])

p("C04", "A distributed transaction is applied atomically across all affected shards",
  "The coordinator's distributed transaction sends each transaction to every shard that owns its id, an input or an output and to no other, completes a transaction only if every one of those shards granted it, and tells every one of those shards the same decision for it. It reports the decision only after all shards confirmed, passes through prepare, commit and discard in order, persists each step before acting on it, and if any step fails it reports failure and takes no later step.",
  ["inputs", "fault_sequences", "crash_points"], "every batch, every assignment of transactions to shards, every pattern of shard answers and failures, and recovery from each persisted phase",
  "Upstream tests mock a few shards and one failure at a time (and are not buildable here); the agreement must hold for every number of shards, transactions and failure pattern.",
  [T + "coordinator/distributed_tx.cpp", T + "coordinator/distributed_tx.hpp"],
  [("add_tx routes to shards", "distributed_tx.cpp"), ("prepare ANDs shard answers, commit scatters them", "distributed_tx.cpp"), ("execute phases and recover_*", "distributed_tx.cpp")],
  observe=["calls received by the shards, result of execute"])

p("C05", "The atomizer admits each input into at most one block within its cache depth",
  "The atomizer accepts a transaction into the next block only when attestations for all of its inputs have arrived and none of its inputs was spent by a transaction accepted within the window its attestations cover; a transaction that is too old, or whose input was spent, is rejected with the matching error and leaves no trace in the block. Making a block emits exactly the accepted transactions once, advances the height by one, and reports exactly the notifications that fell out of the window as incomplete.",
  ["histories", "inputs"], "every sequence of notifications at any heights and block productions, any cache depth",
  "The atomizer has no stable test in this tree; double-spend protection depends on the relative age of notifications and blocks over unbounded histories.",
  ["src/uhs/atomizer/atomizer/atomizer.cpp", "src/uhs/atomizer/atomizer/atomizer.hpp"],
  [("spent-output cache per height offset", "atomizer.cpp: check_stxo_cache, add_tx_to_stxo_cache"), ("make_block shifts the caches", "atomizer.cpp")],
  state=[("pending notifications per height offset", "attestations received so far", "atomizer.hpp"), ("spent cache per height offset", "inputs of accepted transactions", "atomizer.hpp")],
  observe=["results of insert, insert_complete, make_block"])

p("C06", "Runtime shard locks are exclusive and every lock request is answered once",
  "At every moment a key of a runtime locking shard is locked by at most one writer or by any number of readers, never both, and only by tickets the shard knows. Every lock request is answered exactly once: immediately with an error, or later with the key's current value when its lock is granted, or with a wounded error when its ticket is wounded, rolled back or loses its place; callbacks run without the shard's internal mutex held. A request is left waiting only while a conflicting lock or an older waiting request blocks it, and waiting only ever happens behind an older or prepared ticket, so tickets cannot deadlock.",
  ["histories", "schedules"], "every sequence of try_lock, prepare, commit, rollback and finish calls over any tickets and keys",
  "Seven unit tests script a few lock patterns over two tickets; exclusion, wound-wait order and exactly-once callbacks must hold for every history of overlapping tickets and keys.",
  ["src/parsec/runtime_locking_shard/impl.cpp", "src/parsec/runtime_locking_shard/impl.hpp"],
  [("lock queue and grant rule", "impl.cpp: acquire_lock, acquire_locks"), ("wound-wait", "impl.cpp: get_waiting_on, wound_tickets"), ("release", "impl.cpp: release_locks")],
  state=[("per-key writer, readers and queue", "who holds and who waits", "impl.hpp"), ("per-ticket held and queued locks", "the same relation by ticket", "impl.hpp")],
  observe=["callbacks of try_lock, and of every operation that releases locks"])

p("C07", "A runtime shard's tickets prepare, commit and finish only in the legal order",
  "A ticket on a runtime shard can be prepared only while active, with nothing queued and with a write lock held on every key it updates; a prepared ticket is never wounded, keeps its locks, and its commit writes exactly the prepared values and releases all its locks. Commit is refused unless prepared, finish unless committed, rollback of a committed ticket is refused so that a decision is never forgotten before finish, each refusal leaves the state unchanged, and a shard restored from replicated state holds exactly the stored values, tickets and write locks.",
  ["histories", "crash_points"], "every history of calls on any tickets, and recovery from any replicated state",
  "The tests run the nominal order and a few errors; refusal without side effects and recovery fidelity must hold from every reachable state.",
  ["src/parsec/runtime_locking_shard/impl.cpp", "src/parsec/runtime_locking_shard/replicated_shard.cpp"],
  [("ticket state machine", "impl.cpp: prepare, commit, rollback, finish"), ("recover", "impl.cpp"), ("replicated shard", "replicated_shard.cpp")],
  observe=["results of prepare, commit, rollback, finish, get_tickets; values returned by later locks"])

p("C08", "A broker commits a ticket on all of its shards or on none",
  "A broker reports a ticket committed only after every shard the ticket used prepared it and then committed it, and never asks any shard to commit before all of them prepared; a ticket is not committed anywhere while some shard's prepare was not answered with success. Operations out of order (a commit while locks are pending, a rollback or a prepare after a commit began, finish before commit or rollback ended, state updates for keys the ticket did not lock) are refused with an error, every request gets at most the requests it needs (a shard which prepared, committed or finished is not asked again), and after a crash recovery completes tickets that some shard committed and rolls back the rest.",
  ["histories", "fault_sequences", "crash_points"], "every interleaving of shard responses and failures for any number of tickets and shards",
  "One stable broker test deploys a contract on the happy path; atomicity must survive every order and failure of shard responses.",
  ["src/parsec/broker/impl.cpp", "src/parsec/broker/impl.hpp"],
  [("per-shard ticket state machine", "impl.cpp: handle_prepare, handle_commit, handle_rollback, handle_finish"), ("recovery", "impl.cpp: handle_get_tickets, do_recovery")],
  observe=["calls received by shards, callbacks to the caller"])

p("C09", "Every serialized message decodes to the value encoded, and bad input is rejected",
  "Writing a value to a buffer or stream and reading it back into a fresh variable yields an equal value and consumes exactly the bytes written, for integers, byte arrays, buffers, optionals, pairs, variants, vectors, sets, maps and the messages built from them, of any content and size; serialized_size is exactly the number of bytes written. A read from a buffer is accepted exactly when that many bytes are left, stores exactly those bytes and moves over them; otherwise it stores nothing, and the serializer reports failure until reset. Decoding a truncated or corrupted message (with variant indexes that name an alternative) ends in a value or a reported failure: it never reads outside the buffer, throws, or allocates by a length the bytes do not back. Writing never touches bytes outside the range written and grows the buffer only as far as needed.",
  ["inputs"], "every value and every byte string of any length, including lengths that lie",
  "Serialization tests round-trip a few dozen fixed values; bounds and error handling must hold for every input an attacker may send.",
  ["src/util/serialization/buffer_serializer.cpp", "src/util/serialization/stream_serializer.cpp", "src/util/serialization/size_serializer.cpp", "src/util/serialization/format.hpp", "src/util/serialization/format.cpp"],
  [("bounds checks in read and write", "buffer_serializer.cpp"), ("container formats", "format.hpp")],
  observe=["values decoded, serializer validity, end_of_buffer"])

p("C10", "Hex text decodes exactly when it is valid and round-trips with its bytes",
  "Encoding any bytes as hex gives two lower-case digits per byte in order, and decoding that text gives the same bytes. buffer::from_hex accepts exactly the non-empty texts of an even number of hexadecimal digits (either case) of at most 102400 characters and rejects every other text; from_hex_prefixed strips the prefix only where the text starts with it, reads an odd number of digits as if a 0 stood before them, and otherwise behaves the same. A 32-byte hash decodes to exactly its bytes from its 64 digits, and decoding a hash from any text never writes outside it.",
  ["inputs"], "every byte string and every text of any length",
  "The tests try a few good and bad strings; signs, whitespace, embedded prefixes and over-long texts are untested.",
  ["src/util/common/buffer.cpp", "src/util/common/hash.cpp"],
  [("buffer::to_hex, from_hex, from_hex_prefixed", "buffer.cpp"), ("hash_from_hex, to_string", "hash.cpp")],
  observe=["decoded bytes, nullopt for bad text"])

p("C11", "Bounded caches keep exactly the most recent entries",
  "A bounded set, the block cache and the error cache answer a lookup with exactly what the most recent insertions say: an entry is found if it was added within the last so many additions the configured size allows and not otherwise, evicting strictly oldest first. The block cache maps every output of its retained blocks to the right height and status, forgets exactly the evicted block's entries, and the error cache returns the recorded error by transaction id and by every output id concerned.",
  ["histories", "inputs"], "every sequence of insertions and lookups, every capacity",
  "Tests insert a few blocks; evictions with overlapping keys and boundary capacities need all histories.",
  ["src/util/common/cache_set.hpp", "src/uhs/atomizer/watchtower/block_cache.cpp", "src/uhs/atomizer/watchtower/error_cache.cpp"],
  [("eviction queues", "cache_set.hpp, block_cache.cpp, error_cache.cpp")],
  observe=["contains, check_unspent, check_spent, check_tx_id, check_uhs_id"])

p("C12", "Ticket numbers are unique and keys always map to one existing shard",
  "The ranges of ticket numbers handed out by a ticket machine never overlap, each contains the configured count, and ascend over time, under any concurrency. A directory maps a key always to the same shard, which exists.",
  ["schedules", "inputs"], "every interleaving of requests from any number of brokers, every key and shard count",
  "Tests request a handful of numbers sequentially; uniqueness is a claim about all histories and schedules.",
  ["src/parsec/ticket_machine/impl.cpp", "src/parsec/directory/impl.cpp"],
  [("atomic fetch-and-add by the range size", "ticket_machine/impl.cpp"), ("hash modulo shard count", "directory/impl.cpp")],
  observe=["callback values of get_ticket_number and key_location"])

p("C13", "The wallet builds only balanced transactions from outputs it owns",
  "A transaction built by the wallet spends distinct outputs the wallet currently holds, pays exactly the requested amount to the payee, returns the whole difference to the wallet as change, and is refused without side effects when funds do not suffice. The reported balance always equals the sum of the outputs held; confirming a transaction adds the outputs payable to the wallet and removes the inputs it spent, each exactly once. Signing gives every input that pays to one of its keys that key's signature of the transaction's id and changes nothing else. (Totals stay below 2^64; an output confirmed again after it was spent counts as received again.)",
  ["histories", "inputs"], "every sequence of sends, receipts and confirmations with any amounts",
  "The wallet sources do not build into the test binary here; upstream tests cover a few sends, while conservation must hold over all histories.",
  ["src/uhs/transaction/wallet.cpp", "src/uhs/transaction/wallet.hpp"],
  [("accumulate_inputs and change output", "wallet.cpp"), ("balance bookkeeping", "wallet.cpp: update_balance, confirm_transaction")],
  state=[("unspent map and spend queue", "outputs the wallet holds", "wallet.hpp"), ("balance", "their total", "wallet.hpp")],
  observe=["balance(), count(), returned transactions"])

p("C14", "A configuration is accepted only if every component it describes is complete",
  "Reading and validating a configuration accepts it exactly when every component instance it counts has the endpoints, database directories, node counts, keys and ranges (within the hash prefixes) its architecture needs, at least one of every required component is there, thresholds are achievable by distinct keys and the seed range is sane; otherwise it returns an explanation. Accepted options hold exactly the configured values, each in the place of its instance, and the documented default where an optional setting is absent. The parser's getters return a value exactly when one of that type is stored (the environment first, then the file), exactly as written, and malformed values, endpoints and keys are reported instead of replaced by others. The seed ranges given to load generators are equal, adjacent and disjoint.",
  ["configurations", "inputs"], "every configuration, any number of shards, sentinels, coordinators and clusters",
  "About a dozen configuration files are tested; completeness must be decided for every number of instances and every subset of missing or malformed settings.",
  ["src/util/common/config.cpp", "src/util/common/config.hpp"],
  [("check_options", "config.cpp"), ("read_options", "config.cpp"), ("parser", "config.cpp")],
  observe=["result of read_options, load_options, check_options and of parser getters"])

p("C15", "An agent reports success only after its function ran and its ticket committed",
  "An agent takes a transaction through begin, function retrieval, run, commit and finish. It asks the broker to commit a ticket only after the function ran to success under it, with exactly the updates the run produced and nothing at all for a read-only run, and it reports success only once that ticket was committed and finished, with those updates, even if the finish had to be retried. A run that failed is never committed and a committed ticket is never rolled back. Every failure on the way is rolled back before the agent either asks for a retry or, for a permanent one, finishes the ticket and reports the failure once without retrying it. A ticket known to be wounded requests no more locks in that attempt; a restarted one starts unwounded and runs its function only after every lock it held before was taken again, no weaker than before. A read-only run takes no write lock, and answers that are not being waited for change nothing.",
  ["histories", "fault_sequences"], "every order of broker and runner responses, failures and repeated executions",
  "One happy-path deployment is tested; the state machine must be right for every failure at every step.",
  ["src/parsec/agent/impl.cpp", "src/parsec/agent/impl.hpp"],
  [("agent state machine", "impl.cpp")],
  observe=["requests made of the broker and the runner", "reports to the caller, getters"])

p("C16", "A blocking queue delivers each item exactly once and in order",
  "Items pushed into a blocking queue come out exactly once, in first-in first-out order (or by priority), whatever the interleaving of producers and consumers; a consumer stays blocked only while the queue is empty and has not been cleared. Clearing drops the items pushed before it and releases every blocked consumer, and from then until reset no consumer blocks: pop returns an item pushed since or reports that there is none.",
  ["schedules", "histories"], "every interleaving of producers, consumers and clear/reset calls",
  "Unit tests run single-threaded sequences or short threaded ones; loss or duplication needs particular interleavings.",
  ["src/util/common/blocking_queue.hpp"],
  [("mutex and condition variable protocol", "blocking_queue.hpp")],
  observe=["values returned by pop and pop results"])

p("C17", "A replicated shard state holds exactly the decided tickets and values",
  "The replicated part of a runtime shard records a prepared ticket with its broker and updates and keeps that record if the request is repeated, applies the updates exactly once and marks the ticket committed on commit, refuses to commit unknown tickets without changing anything, drops a ticket on finish or rollback, and so always holds what a new leader needs to resume every undecided ticket. The shard's server tells a broker that a prepare, commit, rollback or finish succeeded only after the replicated state and the shard both accepted it, in that protocol order, and otherwise answers with an error of that operation.",
  ["histories", "crash_points"], "every sequence of prepare, commit, finish and rollback requests, and every pattern of failing replication",
  "Tests drive one nominal sequence; refusal, repetition and failed replication must be right from every state.",
  ["src/parsec/runtime_locking_shard/replicated_shard.cpp", "src/parsec/runtime_locking_shard/server.cpp", "src/parsec/runtime_locking_shard/state_machine.cpp"],
  [("replicated_shard state machine", "replicated_shard.cpp"), ("shard RPC server", "server.cpp")],
  observe=["results and get_tickets/get_state", "answers to brokers and the requests made on their behalf"])

p("C18", "Replicated services apply the same log in the same order on every node",
  "Every node of a replicated cluster applies the same commands in the same order, and a node restored from a snapshot is indistinguishable from one that replayed the log.",
  ["schedules", "crash_points", "fault_sequences"], "every leader change, crash and snapshot point",
  "Consensus behaviour under faults cannot be sampled by a unit test.",
  ["src/util/raft/node.cpp", "src/util/raft/state_manager.cpp", "src/util/raft/log_store.cpp"],
  [("NuRaft integration", "src/util/raft")],
  observe=["state machine results on each node"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
