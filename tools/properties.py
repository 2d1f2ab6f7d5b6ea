#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that long lines stay readable)."""
import json, os
ST="crates/host/state/src/storage.rs"; GS="crates/host/state/src/global_state.rs"
AC="crates/host/state/src/account_storage.rs"; TS="crates/host/state/src/template_storage.rs"
RT="crates/host/runtime/src/runtime/runtime.rs"; FE="crates/host/runtime/src/func_env.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("S01","Reads of the latest state return the most recent write",
 "After any sequence of writes, checkpoints, rollbacks, commits, rewinds and reopenings of the global state, a read of the latest state returns the value of the most recent write that has not been rolled back, rewound or lost by reopening, and the default (zero / not found) when there is none. A write to one key never changes what is read from another key.",
 ["histories","inputs"],"all operation sequences over any set of keys, values and layers",
 "The tests read back straight after one write, checkpoint or commit; none interleaves the three tiers (dirty, checkpointed, persisted) with rollbacks and rewinds.",
 [ST,GS,AC],[("get_by_hash precedence dirty > next layer > SQLite",ST),("rollback / rewind clear the right tier",ST)],
 [("dirty_changes","writes since the last checkpoint",ST),("next_layer.changes","checkpointed writes of the open layer",ST),("values table","rows per layer",ST)],
 ["AccountStorage getters with no layer query parameter"])
p("S02","Rollback, commit and rewind respect the dirty/checkpointed boundary",
 "Rolling back discards exactly the writes made since the last checkpoint and nothing that was checkpointed or committed. Committing or rewinding while there are such dirty writes is refused with an error and changes nothing at all; whether there are dirty writes is reported truthfully. A successful commit adds exactly one layer, numbered one above the current one.",
 ["histories"],"all interleavings of write, checkpoint, rollback, commit and rewind",
 "The tests cover each refusal once, from a fresh database, and never look at what remains afterwards.",
 [ST,GS],[("DirtyChanges error in commit and rewind",ST),("rollback clears dirty_changes only",ST)],
 [("dirty_changes","writes since the last checkpoint",ST)],["GlobalState::{checkpoint,rollback,commit,rewind,has_uncommitted_changes,current_layer}"])
p("S03","What was committed in a layer never changes while that layer exists",
 "A read that asks for a past layer returns the value the key had when that layer was committed, whatever is written, checkpointed, committed or rolled back later. A key that was not written up to that layer reads as its default, even if it was written afterwards.",
 ["histories","inputs"],"all pairs (history, layer), for every key",
 "The tests ask for one past layer right after committing it; overwriting in later layers, pending changes, gaps and reopening are not combined.",
 [ST,GS,AC],[("layer_id <= ? AND complete = 1 ORDER BY layer_id DESC LIMIT 1",ST),("layer_query_parameter",GS)],
 [("values/layers tables","append-only per-layer rows","crates/host/state/src/resources/schema.sql")],["AccountStorage/TemplateStorage reads with a layer query parameter"])
p("S04","Rewinding restores the exact state of the target layer",
 "After a successful rewind to an existing layer, every read, the current layer number and the root are exactly those right after that layer was committed; later layers and all pending writes are gone for good, also after reopening. Executing the same writes again afterwards yields the same layer numbers and roots as the first time.",
 ["histories"],"all histories and all target layers, including repeated rewinds and the current layer itself",
 "The tests rewind once, from one known layer to another, and check one key.",
 [ST,GS],[("DELETE FROM layers WHERE id > ? with cascading values",ST),("next_layer reset",ST)],
 [("layers table","ids and fingerprints",ST)],["GlobalState::rewind, current_layer, reads"])
p("S05","The state root identifies the contents of the state",
 "Two layers have equal roots if and only if they hold the same key/value contents, independently of the order and grouping of the writes, of overwritten intermediate values, of checkpoints and of the history that led there. Committing with no changes keeps the root.",
 ["histories","inputs"],"all pairs of histories, in the same and in different databases",
 "The tests compare the roots of a handful of fixed histories.",
 [ST],[("XOR of blake3(key hash, value) over the current contents",ST)],
 [("changes_xor_fingerprint","difference between the open layer and the last one",ST)],["the root returned by commit and current_layer"])
p("S06","A crash at any moment leaves a whole number of layers",
 "If the process dies at any point while the database is being created, committed to or rewound, reopening it yields exactly the state before or exactly the state after the interrupted operation: every read, the layer number and the root agree with one of the two. The reopened database goes on working as if nothing had happened.",
 ["crash_points","histories"],"every point of every commit, rewind and initialisation, in every history",
 "No test reopens a database file, let alone after a crash.",
 [ST,GS,"crates/host/state/src/resources/schema.sql"],[("layers.complete flag set last",ST),("incomplete layers ignored by reads and deleted on opening",ST)],
 [("layers.complete","1 once all rows of the layer are there",ST)],["GlobalState::new on the file of a killed process"])
p("S07","Reopening a database preserves its layers and drops pending writes",
 "Opening an existing database yields the same layers, values, past-layer values and roots as before it was closed, without the writes that had not been committed, and never applies the genesis a second time. Work continues at the next layer number.",
 ["histories","configurations"],"all histories of operations interleaved with closing and reopening, with empty and non-empty genesis",
 "All tests use fresh in-memory databases.",
 [ST,GS],[("genesis_fingerprint check before genesis initialisation",GS),("next layer id from the last complete layer",ST)],
 [("layers table","ids and fingerprints",ST)],["GlobalState::new on an existing file"])
p("A01","Account variables are independent and keep their exact value",
 "Reading a variable of an account returns exactly the bytes (or the little-endian integer) last written to it, or zeros if it was never written. Writing one variable changes no other variable of any account, whatever their sizes, and however they share or straddle storage segments.",
 ["inputs","histories"],"all layouts, variables, values and sequences of writes",
 "The tests use a few layouts with small power-of-two sizes and one account.",
 [AC,"crates/host/layout/src/fixed.rs"],[("split of a variable into 32-byte segments",AC),("offsets and lengths of the layout","crates/host/layout/src/fixed.rs")],
 [("var_segments","32-byte slices of the account's variables",AC)],["AccountStorage::get_var*, set_var*"])
p("A02","Account records and templates are stored faithfully and independently",
 "An account keeps the name, template, balance and counter it was created with, until its balance or counter is set; setting one of them changes neither the other nor any variable nor any other account. A template returns exactly the sections it was stored with (the non-core ones and the core ones together), and replacing one of the two groups leaves the other alone.",
 ["inputs","histories"],"all names, addresses, 64-bit balances and 128-bit counters, section sets, and interleavings of updates",
 "The tests check single fields right after creation.",
 [AC,TS],[("AccountImmutable / AccountMut records under separate keys",AC),("core and noncore keys",TS)],
 [("accounts:*:immutable, accounts:*:mutable, templates:*:core/noncore","records",AC)],["AccountStorage and TemplateStorage getters"])
p("R01","A failed transaction changes nothing",
 "When a spawn or a call fails for any reason (out of gas, not a constructor, function missing or forbidden or of the wrong type, trap, failing or panicking host call, at any point of its execution) no balance, counter, variable, account or layer differs from before it: only its receipt reports it. Changes made by earlier transactions are neither lost nor altered.",
 ["programs","histories","fault_sequences"],"all templates, all points of failure within a function, all preceding histories",
 "The tests check that the receipt is a failure; none looks at the state afterwards, and only a few failures are triggered.",
 [RT,FE],[("rollback on failure",RT),("checkpoint/commit only on success",RT)],
 [("GlobalState dirty changes","effects of the running transaction",ST)],["Runtime::{spawn,call} receipts and account reads"])
p("R02","Coins are neither created nor destroyed by transactions",
 "Spawning, calling and verifying never change the sum of all balances, and balances change only by the transfers that the executed functions ask for: each moves exactly the requested amount from its source to its destination. A transfer that is not covered by the source's balance, or that would overflow the destination's, moves nothing.",
 ["programs","histories","inputs"],"all templates, sequences of transfers (also to oneself and in chains) and amounts up to 2^64-1",
 "The tests make single transfers of small amounts between two distinct accounts.",
 [RT,"crates/host/runtime/src/vmcalls/transfer.rs"],[("balance checks in transfer",RT)],[("balance","coins of an account",AC)],["Runtime::get_account"])
p("R03","Constructors run only at spawning, other functions only afterwards",
 "A spawn succeeds only with a function that its template declares as a constructor, and a call succeeds only with an exported function that is neither a constructor nor the memory allocator. Any other choice yields the corresponding failure receipt and no state change.",
 ["programs","inputs"],"all templates (sets of exports and constructors) and function names",
 "The tests try one or two wrong names on fixed templates.",
 [RT,"crates/host/runtime/src/runtime/function.rs"],[("ensure_ctor / ensure_not_ctor",RT)],[("CtorsSection","the constructors of a template","crates/host/types/src/template/section.rs")],["receipts of Runtime::{spawn,call}"])
p("R04","Each successful transaction commits exactly one layer",
 "A successful spawn or call makes all of its effects durable in exactly one new layer, and the root in its receipt is the root of that layer. A deployment or a direct account operation becomes part of the next layer that is committed. A failed transaction adds no layer.",
 ["histories","programs"],"all sequences of deployments, spawns, calls, failures and explicit commits and rewinds",
 "The tests look at receipts only; layers are never counted.",
 [RT,GS],[("checkpoint + commit after success",RT)],[("current layer","number and root",GS)],["receipts; GlobalState::current_layer"])
p("R05","Gas limits are enforced before anything happens",
 "A deployment or spawn whose gas limit does not cover its price (the message's size, and for spawns the constructor's code) yields an out-of-gas receipt and changes nothing; one whose limit does cover it (a deployment: is at least the price; a spawn: exceeds it), or that has no limit, never runs out of gas. The gas reported by a successful deployment is its price.",
 ["inputs","programs"],"all gas limits around every price, all message sizes and constructors",
 "The tests use a zero limit or none; the boundary is not approached.",
 [RT,"crates/host/types/src/gas/mod.rs","crates/host/runtime/src/price_registry.rs"],[("payload price and function price consumed before execution",RT)],[("GasTank","remaining gas","crates/host/types/src/gas/mod.rs")],["receipts of Runtime::{deploy,spawn}"])
p("R06","Memory allocation and verification code has no access to storage",
 "Code that runs to allocate the calldata memory, or to verify a transaction, can neither read nor write account storage nor move coins: an attempt fails the transaction without any effect. Verifying a transaction never changes any state.",
 ["programs","histories"],"all templates whose allocation or verification code uses any host function",
 "The fixtures' allocation code never touches storage.",
 [FE,RT,"crates/host/runtime/src/vmcalls"],[("ProtectedMode::AccessDenied",FE)],[("protected mode","whether storage is accessible",FE)],["receipts; account reads"])
p("R07","Receipts and guests see exactly what was exchanged",
 "A function sees exactly the calldata of its transaction; the receipt contains exactly the bytes it returned, the logs it emitted in order (also when it fails), and as touched accounts exactly the target and the parties of its non-empty transfers. Two allocations made by a guest never overlap each other or the calldata.",
 ["programs","inputs"],"all calldata, return data, logs and transfer patterns, all allocation sequences",
 "The tests use one short calldata and at most one log.",
 [RT,FE,"crates/host/runtime/src/vmcalls"],[("calldata copied through svm_alloc",RT),("logs and touched accounts in the function environment",FE)],[("FuncEnv","per-function context",FE)],["receipts of Runtime::{spawn,call}"])
p("R08","Execution is deterministic across replicas and rewinds",
 "Two nodes that execute the same messages in the same order from the same genesis produce identical receipts, roots and accounts. Rewinding to an earlier layer and executing the same messages again reproduces them, and executing other messages in between leaves no trace.",
 ["histories","schedules","configurations"],"all message sequences, all rewind points, in-memory and on-disk databases",
 "No test compares two runtimes or executes again after a rewind.",
 [RT,ST],[("state only in GlobalState",RT),("content-based root",ST)],[("PriceRegistry / template cache","anything outside GlobalState",RT)],["receipts and roots of two runtimes"])
p("R09","Deployments and account addresses are content-determined and never interfere",
 "A deployed template's address is a function of its code alone and an account's address a function of its template alone; different ones get different addresses. Deploying or spawning makes available exactly that template or account, under the address in the receipt, and leaves every other account and template untouched.",
 ["inputs","histories"],"all templates and deployment/spawn sequences",
 "The tests deploy one template and spawn one account per runtime.",
 [RT,"crates/host/types/src/account.rs"],[("compute_template_addr / compute_account_addr",RT)],[("template address","hash of the code",RT)],["receipts; TemplateStorage and AccountStorage reads"])
p("G01","Only fixed-gas programs are accepted",
 "Template code is accepted only if it has no loop, no indirect call, no recursion (direct or through other functions), no floating-point instruction, and exports the required entry points with the required types; any program that satisfies all of this is accepted. The verdict names a reason that really applies, and no code makes validation panic.",
 ["programs"],"all modules: all call graphs, nestings and placements of a forbidden instruction",
 "The tests have a dozen small modules, one per error.",
 ["crates/host/gas/src/validation.rs","crates/host/gas/src/call_graph/mod.rs","crates/host/gas/src/graph/sort.rs","crates/host/program/src/program.rs","crates/host/program/src/lib.rs","crates/host/program/src/visitor.rs"],
 [("call-graph cycle detection","crates/host/gas/src"),("export signature checks","crates/host/program/src/program.rs")],[("CallGraph","calls between functions","crates/host/gas/src")],["svm_gas::validate_wasm; Program::new; Runtime::validate_deploy"])
p("G02","The price of a function is the cost of its most expensive path",
 "The price computed for a function equals the largest total cost over all execution paths through it (leaving by `unreachable` counts as leaving the function), with called functions and host functions priced in; in particular no path can cost more than the price, and code that cannot be reached does not count.",
 ["programs","inputs"],"all acyclic control flows (nested blocks, conditionals, branches, tables, returns) and call graphs",
 "The tests price a few fixed snippets.",
 ["crates/host/gas/src/pricing","crates/host/gas/src/cfg","crates/host/gas/src/graph","crates/host/runtime/src/price_registry.rs"],
 [("control-flow graph and maximum-weight path","crates/host/gas/src")],[("CFG","blocks and jumps","crates/host/gas/src/cfg")],["ProgramPricing"])
p("C01","Messages survive encoding and decoding unchanged",
 "Decoding the encoding of a deploy, spawn or call message, of an envelope or of a context gives back the very same message, and the bytes are those of the documented format: field order, big-endian integers and length prefixes. A partial decoding that skips sections returns the remaining ones unchanged.",
 ["inputs"],"all field values and lengths up to the format's limits, all section sets and orders",
 "The tests round-trip one sample per type.",
 ["crates/host/codec/src"],[("Codec implementations","crates/host/codec/src/codec.rs")],[],["Codec::{encode,decode_bytes}, template::{encode,decode}"])
p("C02","Receipts survive encoding and decoding unchanged",
 "Decoding the encoding of any deploy, spawn or call receipt, successful or failed with any error, gives back the same outcome, addresses, state, return data, gas, touched accounts, logs and error details; an overlong error text is shortened, nothing else. The bytes follow the documented format.",
 ["inputs"],"all receipts up to the format's limits, all error variants",
 "The tests round-trip one receipt per kind and error.",
 ["crates/host/codec/src/receipt"],[("receipt encoders and decoders","crates/host/codec/src/receipt")],[],["Receipt encoding"])
p("C03","Malformed messages are rejected, never accepted or fatal",
 "For every byte string, decoding it as a deploy, spawn or call message, an envelope, a context or a receipt either fails with an error or yields a message; it never panics, and never takes memory out of proportion to the bytes. It yields a message exactly when the documented format allows it, and then that message, so a truncated message or one with an unknown section kind, gas mode or layout kind, or with invalid text, is an error.",
 ["inputs"],"all byte strings: truncations, bit flips, wrong lengths, unknown kinds, at every position",
 "The tests feed a few truncations.",
 ["crates/host/codec/src","crates/host/runtime/src/runtime/runtime.rs"],[("ParseError propagation","crates/host/codec/src")],[],["Runtime::validate_{deploy,spawn,call}; Codec::decode_bytes"])
p("B01","Function arguments and results survive the ABI",
 "Decoding the ABI encoding of any sequence of values (booleans, integers of all widths, amounts, addresses, units, missing values, and arrays of up to ten of them) returns the same values of the same types. The encoding uses the fewest payload bytes for numbers, never exceeds its declared maximum size and equals the declared size of each value. Bytes that are no encoding are an error, and a value is never read as another type.",
 ["inputs"],"all values and sequences of them",
 "The tests sample a few values per type; array lengths are sampled up to three.",
 ["crates/wasm/abi-encoder/src","crates/wasm/abi-decoder/src","crates/wasm/abi-layout/src"],[("layout markers","crates/wasm/abi-layout/src"),("Decoder","crates/wasm/abi-decoder/src/decoder.rs")],[],["Encoder::encode, CallData::next, ByteSize"])
p("J01","The JSON interface agrees with the binary format",
 "A call, a spawn or input data that is encoded from JSON is byte for byte the binary message with those fields, and decoding it to JSON gives the fields back; a receipt decoded to JSON shows the receipt's data. A JSON document with a missing or ill-typed field or an out-of-range value is an error, never a wrong or partial message and never a panic.",
 ["inputs"],"all documents: all field values, value types, omissions and ill-typed values",
 "The tests have one document per message kind and drop one field at a time.",
 ["crates/host/codec/src/api/json"],[("get_field and the typed wrappers","crates/host/codec/src/api/json")],[],["api::json::{encode,decode}_{call,spawn,inputdata}, decode_receipt"])
p("F01","The C interface contains failures and frees what it allocated",
 "Every call of the C interface returns a result: success, a receipt, or an error with a message when the input is malformed, the runtime pointer is not one that was handed out, or the execution panics; it never unwinds into the caller. An error or failed receipt leaves the balances, counters, templates, layers and roots of every runtime as they were, and the same runtime and the library go on serving other requests, also from several threads with a runtime each. The number of runtimes equals those created and not yet destroyed; destroying one ends its threads and closes its database, whose committed layers are there when it is opened again. The memory of a result is given back exactly once when the result is freed.",
 ["histories","fault_sequences","inputs","schedules"],"all sequences of calls with valid, malformed and failing inputs on any number of runtimes",
 "The tests exercise a happy path and a few isolated failures, and never use a runtime after a failure.",
 ["crates/host/runtime-ffi/src","crates/host/runtime/src/func_env.rs",GS],[("catch_unwind wrapper","crates/host/runtime-ffi/src/c_api.rs"),("ResourceTracker","crates/host/runtime-ffi/src/resource_tracker.rs"),("svm_result_t ownership","crates/host/runtime-ffi/src/result.rs")],[],["svm_* functions"])
p("K01","Template code sees consistent storage through the SDK",
 "For a template written with the SDK, each declared field and array cell is a storage variable of its own: reading returns the last value written to it, writing changes no other field or cell, and an index outside the array aborts instead of reaching a neighbour.",
 ["inputs","histories"],"all storage declarations, fields, indices, values and orders of access",
 "The tests use one small struct and in-range indices.",
 ["crates/wasm/sdk-storage/src","crates/wasm/sdk-macros/src/struct/storage.rs","crates/wasm/sdk-storage-mock/src"],[("sequential variable ids","crates/wasm/sdk-macros/src/struct/storage.rs"),("cell offset check","crates/wasm/sdk-storage/src")],[],["generated getters and setters"])
p("K02","Templates written with the SDK are accepted by the runtime",
 "A template written with the SDK (storage of any of its types, constructors and endpoints taking and returning them), compiled to Wasm with the project's release settings and crafted with the command line tool from the description the SDK produces, passes deployment validation including the Fixed-Gas rules, deploys, and accounts spawn from it with the described storage layout.",
 ["inputs"],"all templates the SDK can express",
 "No test compiles an SDK template to Wasm and deploys it, except fixtures built by hand.",
 ["crates/wasm/sdk-storage/src","crates/wasm/sdk-std/src","crates/wasm/abi-encoder/src","crates/wasm/sdk-macros/src","crates/host/cli/src"],[("panic without formatting","crates/wasm/sdk-std/src"),("layout marker","crates/wasm/abi-encoder/src/types/numeric.rs")],[],["craft-deploy and validate_deploy of an SDK template"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
