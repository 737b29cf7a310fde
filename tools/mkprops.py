#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that it is easy to diff)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "No signature index is ever released twice",
  "Over the whole life of a private key, no two signatures handed to a caller carry the same sequence number, whatever mix of concurrent signing, borrowing and returning of sequence numbers, closing, reloading, cache resets and precomputation happened in between. Within one handle the numbers handed out are consecutive from the key's current sequence number, and a number handed out before a clean close is never handed out again after a reload.",
  ["schedules", "histories"], "all interleavings of signers on one key, all sequences of sign / borrow / return / close / reload, all containers that honour the container contract",
  "The tests sign a handful of messages with one goroutine (one test uses a few) and never compare the indices of a concurrent or multi-session history.",
  ["api.go", "core.go", "container.go"],
  [("sequence number is taken under the key's mutex and persisted first", "core.go getSeqNo"), ("borrowing moves the persisted number ahead", "container.go BorrowSeqNos"), ("Close returns unused numbers", "api.go Close")],
  [("sequence number", "first unused index", "api.go PrivateKey.seqNo"), ("borrowed", "numbers reserved ahead", "api.go PrivateKey.borrowed, container.go fsContainer.borrowed")],
  ["Signature.SeqNo of every released signature", "arguments of the container's SetSeqNo/BorrowSeqNos"])

p("C02", "A crash, power loss or I/O error never leads to index reuse or a lost key",
  "If the process is killed at any point, or loses power at any point, or any file operation fails, then opening the key again either continues with sequence numbers strictly above every signature already handed out, or refuses; it never repeats one. A key from which a signature was ever handed out still loads afterwards and signs validly for the same public key.",
  ["crash_points", "fault_sequences", "histories"], "every system call boundary of key generation, signing, borrowing, returning, cache growth, overwriting and closing; every failing system call; every durable state a power loss may leave behind given what was fsynced",
  "No test kills the process or injects an I/O error; a missing fsync or a wrong write order passes every test.",
  ["container.go", "core.go", "api.go"],
  [("write temp file, fsync, rename, fsync directory", "container.go writeKeyFile"), ("persist before use", "core.go getSeqNo")],
  [("key file", "header with sequence number and borrowed count, then the secret key", "container.go fsKeyHeader")],
  ["system calls of a signing process", "signatures released before the crash", "signatures released after reopening"])

p("C03", "A key on disk is open in at most one place at a time",
  "While a key is open, any other attempt to open the same path, from the same process or another, by whatever spelling of the path, fails with an error that reports being locked and disturbs neither the holder nor its lock. A clean close, a failed open, a failed load or key generation, and the death of the holder all make the key available again.",
  ["schedules", "histories", "crash_points"], "all interleavings of open / sign / close attempts by several goroutines and processes, all error exits that had taken the lock, including a second close of a stale handle",
  "The tests open every container once, in one process, and always close it.",
  ["container.go", "api.go"],
  [("lock file taken on open", "container.go OpenFSPrivateKeyContainer"), ("released on close", "container.go Close")],
  [("lock file", "pid of the holder", "<key>.lock")],
  ["results of concurrent opens", "the Locked() verdict", "presence of the lock file"])

p("C04", "Every signature the library hands out verifies",
  "For every supported parameter set, every sequence number, every message of every length (given as bytes or streamed through any reader), a signature returned without error verifies under the key's public key, both directly and after a round trip through the serialised signature and public key.",
  ["inputs", "configurations", "histories"], "all parameter sets with supported N, W, hash function, PRF construction, height and number of layers; all indices up to the maximum; all messages and reader chunkings",
  "The tests cover some instances with one or two messages at index 0..a few and never reach layer boundaries high up or streamed messages.",
  ["api.go", "core.go", "wots.go", "hash.go"],
  [("subtree path by index", "core.go subTreePathForSeqNo"), ("sign", "api.go SignFrom"), ("verify", "api.go VerifyFrom")],
  [], ["result of Verify / VerifyFrom / package level Verify"])

p("C05", "Verification accepts nothing but the signed message under its own key",
  "A signature stops verifying as soon as any bit of the message, of the serialised signature (parameters, index, randomiser, one-time signatures, authentication paths), or of the public key changes, when parts are swapped between signatures, when it is checked under another key, or when its parameters differ from the public key's. The verdict is false with an error, never a crash.",
  ["inputs", "configurations"], "all single and multiple modifications of message, signature and public key; all pairings of signature and public key parameters",
  "The tests only check that good signatures verify (one test flips nothing).",
  ["api.go", "hash.go", "wots.go"],
  [("recompute the root and compare", "api.go VerifyFrom"), ("index, root and randomiser are hashed with the message", "hash.go hashMessageInto")],
  [], ["result of Verify on modified inputs"])

p("C06", "A one-time signature cannot be extended to another message",
  "Whatever the Winternitz parameter, hash length and message digest, the chain positions revealed by a one-time signature include a working checksum: for no two different digests are all positions for one at or beyond the positions for the other. Holding one signature, an attacker cannot advance its chains to make a signature for another digest that verifies.",
  ["inputs", "configurations"], "all message digests, W in {4,16,256}, N in {16,24,32,64}",
  "Sign-then-verify tests pass with a constant or truncated checksum, because signer and verifier share it.",
  ["wots.go", "params.go"],
  [("checksum chains", "wots.go wotsChainLengths"), ("number of checksum chains", "params.go WotsLen2")],
  [], ["chain positions recovered from real signatures with an independent chain function", "verdict on signatures forged by advancing chains"])

p("C07", "Keys and signatures are byte for byte those of the specification",
  "For equal seeds, index and message, the public key and signature bytes equal those computed by RFC 8391 (and, where the instance says so, NIST SP 800-208) with the documented secret-key expansion, for every supported parameter set, and the library's verdict on any serialised signature equals the specification's.",
  ["inputs", "configurations"], "all parameter sets, seeds, indices and messages",
  "The tests compare digests of a few instances at one index with one seed; instances outside that list (other W, N=16, NIST PRF variants) have no oracle at all.",
  ["hash.go", "wots.go", "core.go", "address.go", "api.go", "params.go", "internal/f1600x4/f1600x4_amd64.go"],
  [("hash constructions", "hash.go"), ("address layout", "address.go"), ("WOTS+", "wots.go"), ("trees", "core.go")],
  [], ["MarshalBinary of public key and signature"])

p("C08", "Results do not depend on threads, CPU features, word size, caching or container",
  "Given the same seeds, index and message, the public key and the signature are bit-identical whatever the number of worker threads, whether or not the vectorised hash is available, whether the library was built for a 32-bit or a 64-bit machine, whether subtrees were freshly computed, precomputed in the background, reloaded from a cache or regenerated after the cache was dropped, whichever container holds the key, and however many other signatures are being made at the same time.",
  ["schedules", "configurations", "histories"], "all thread counts, CPU feature sets, word sizes, cache states, containers and interleavings",
  "The tests run one configuration on one machine.",
  ["core.go", "hash.go", "wots.go", "api.go", "container.go", "internal/f1600x4/f1600x4_amd64.go"],
  [("worker split of leaf generation", "core.go genSubTreeInto"), ("four-way hashing", "hash.go fX4Into"), ("cache", "core.go getSubTree")],
  [], ["bytes of public keys and signatures across configurations"])

p("C09", "Untrusted bytes are rejected with an error, never a crash",
  "Decoding any byte string as a signature, public key, parameters or algorithm name, and loading any file contents as a key, returns an error or a usable value and never panics, hangs or allocates out of proportion to the input's declared, supported parameters. Deriving a key from seeds of any other length than the parameters ask for is refused and leaves the key that was there alone. Whatever binary encoding is accepted re-encodes to exactly the same bytes and can be passed to every other operation safely.",
  ["inputs"], "all byte strings and names; all key file contents; all lengths of seeds",
  "The tests only decode what the library itself encoded.",
  ["api.go", "params.go", "container.go"],
  [("UnmarshalBinary / UnmarshalText", "api.go, params.go"), ("name parser", "params.go ParamsFromName2"), ("context validation", "api.go NewContext")],
  [], ["panic / error / value of every decoder"])

p("C10", "Names, OIDs, parameter encodings and sizes are mutually consistent",
  "Every representable parameter set encodes to four bytes that decode back to exactly that set, every supported one also has a name that does (names of unsupported ones may be refused), a name that is accepted states exactly the numbers of the set it is taken for, no two sets share an encoding or a name, and sets that cannot be represented are refused. Every listed name and OID denotes the parameters the standards assign to it, all lookups (by name, by OID, by parameters) agree, ListNames lists all names of the standards and ListNames2 those and the same shapes with every other supported hash width and Winternitz parameter, and the advertised sizes equal the sizes actually produced.",
  ["inputs", "configurations"], "all parameter sets and 4-byte encodings (exhaustively), all listed names and OIDs",
  "The tests round-trip a sample of names.",
  ["params.go", "api.go", "hashfunc_enumer.go"],
  [("registry", "params.go registry"), ("compressed encoding", "params.go WriteInto / UnmarshalBinary"), ("name parser and printer", "params.go String / ParamsFromName2")],
  [], ["results of the lookup, encode, decode and size functions"])

p("C11", "No state of the subtree cache can break a key",
  "Whatever the cache file contains (missing, empty, truncated, bit-flipped, left over from another or an overwritten key, entries swapped or relabelled, entries half-written by a crash), the key file alone decides: the key loads, has the same public key and sequence number, and every signature it then makes is valid. The damage is repaired or replaced along the way rather than reported as success with wrong bytes.",
  ["fault_sequences", "crash_points", "inputs"], "all damage to the cache file and all stale or mixed cache contents reachable by crashes, restores and overwriting",
  "One test corrupts one cache entry in one way.",
  ["core.go", "container.go", "api.go"],
  [("checksum per cached subtree, checked before first use", "core.go getSubTree"), ("reinitialise the cache when it cannot be opened", "api.go LoadPrivateKeyFrom")],
  [("cache file", "header, then slots with allocated flag, address, subtree, one-time signature and checksum", "container.go")],
  ["load result, public key and signatures after damaging the cache"])

p("C12", "Concurrent use of keys, contexts and public keys is free of data races",
  "Signing, borrowing, querying counters, verifying, enabling precomputation and using a shared context may be done from any number of goroutines at once without a data race, including while subtrees are generated, found corrupted and repaired, waited for by several signers and dropped.",
  ["schedules"], "all interleavings of the concurrent-safe operations of one key, its context and its public key, with background precomputation on or off",
  "The tests are not run under the race detector and barely use concurrency.",
  ["api.go", "core.go", "params.go"],
  [("key mutex and condition variable", "api.go PrivateKey.mux, cond"), ("hand-over of a subtree being generated", "core.go getSubTree")],
  [("readiness maps", "which subtrees are filled and checked", "api.go subTreeReady, subTreeChecked")],
  ["race detector reports over a stress workload whose cache buffers live on the instrumented heap"])

p("C13", "Signing and closing always finish",
  "With no outside interference every call to sign, borrow, query or close returns: concurrent signers that wait for the same subtree are all woken, repair of a corrupted subtree wakes its waiters, and closing a key while a subtree is being computed in the background waits for that work and then completes. After a close has returned nothing of the key keeps running or touches its container.",
  ["schedules", "histories"], "all interleavings of signers, background precomputation, repair and close",
  "A test that deadlocks one time in a thousand passes.",
  ["core.go", "api.go"],
  [("condition variable broadcast when a subtree becomes ready", "core.go getSubTree"), ("wait group joined on close", "api.go Close")],
  [], ["completion of every call in a stressed history", "container calls after close", "goroutines left over"])

p("C14", "Reserved sequence numbers are accounted for exactly",
  "After reserving k sequence numbers the next k signatures need no write to the container, and the reported number of reserved ones is exact at every moment. A clean close or an explicit return gives back every unused number, so that a reload continues exactly where signing stopped and reports no lost signatures; after a crash the reload skips all reserved numbers and reports at least as many lost as were really lost, and no more than were reserved.",
  ["histories", "crash_points"], "all sequences of reserve, reserve-if-below, shrink, sign, return, close, crash and reload",
  "The tests borrow once and close once.",
  ["api.go", "container.go", "core.go"],
  [("borrowExactly", "api.go"), ("BorrowSeqNos / SetSeqNo / GetSeqNo", "container.go")],
  [("borrowed", "reserved but unused numbers", "api.go, container.go")],
  ["container writes per signature", "BorrowedSeqNos", "lostSigs and SeqNo after reload"])

p("C15", "Cached subtrees are dropped once exhausted and kept while needed",
  "Whenever no signing operation is in progress, the key caches only subtrees that unused signatures still need (plus, once precomputation was enabled, those the next bottom subtree will need), and the number of unretired sequence numbers is zero. While a signing operation is in progress no subtree it depends on is dropped; this holds at every index, for any completion order of concurrent signers, including past 2^32.",
  ["schedules", "histories", "configurations"], "all completion orders of concurrent signing operations and all indices, including layer boundaries",
  "One test retires a few numbers in one order at small indices.",
  ["core.go", "api.go", "misc.go"],
  [("retire heap", "core.go retireSeqNo"), ("drop exhausted subtrees", "core.go incLeastSeqNoInUse")],
  [("least sequence number in use", "retirement watermark", "api.go leastSeqNoInUse"), ("retired heap", "finished out of order", "api.go retiredSeqNos")],
  ["GetSubTree/DropSubTree calls seen by the container", "CachedSubTrees", "UnretiredSeqNos"])

p("C16", "A key signs up to its last index and then only refuses",
  "Signing succeeds for every index below the instance's maximum sequence number and, once that is reached, every further attempt fails with an error, hands out nothing and does not move the sequence number, whatever was reserved, however many signers race for the last numbers, and after any number of reloads. An exhausted key still loads, closes and reports its state.",
  ["schedules", "histories", "configurations"], "all ways of reaching the end: sequential, concurrent, with reservations reaching past the end, after reload or jump",
  "No test signs until exhaustion.",
  ["core.go", "api.go", "params.go"],
  [("end check", "core.go getSeqNo"), ("maximum", "params.go MaxSignatureSeqNo")],
  [], ["indices and errors at the end of the key's life"])

p("C17", "Failing containers and readers lose at most signatures, never safety",
  "When the container or the message reader fails at any call, the library returns an error (it does not panic, hang or hand out a signature whose use was not persisted), and as soon as the failures stop the same key keeps signing with fresh indices and valid signatures. A signature that was returned without error is valid even if failures happened around it.",
  ["fault_sequences", "schedules"], "every container call and every read failing once or repeatedly, with one or several signers",
  "The tests' containers and readers never fail.",
  ["core.go", "api.go"],
  [("abort of subtree generation", "core.go getSubTree"), ("sequence number persisted before use", "core.go getSeqNo")],
  [], ["results of signing with injected failures", "persisted sequence number at every release"])

p("C18", "The file container behaves like the documented key-value model",
  "For every sequence of container calls, including closing and reopening, the file-backed container returns what a simple model of its contract returns: sequence number and borrowed count, the key and its parameters, which subtrees exist, and the exact bytes last written to each subtree, with no entry affecting another. A change of the sequence number that fails because the key file cannot be written changes nothing. Buffers have the documented size, and dropped slots may be reused but never shared.",
  ["histories"], "all sequences of reset, cache reset, get, write, drop, list, borrow, set and reopen operations",
  "One test runs one fixed sequence.",
  ["container.go"],
  [("slot allocation and free list", "container.go GetSubTree / DropSubTree"), ("cache header and slot headers", "container.go openCache"), ("key file", "container.go writeKeyFile")],
  [("slot table", "address to slot", "container.go cacheIdxLut")],
  ["results and buffer contents of every call against the model"])

p("C19", "Secrets stay in the files and processes they belong to",
  "Files holding key material are created readable by their owner only, whatever the umask, and after a clean close nothing but the key file holds the secret seeds (unless writing it was interrupted by a crash or failure). The secret seeds appear in no log line, error message, public key or signature, one-time secrets in no log line, error message or public key, and every generated key takes all three seeds, afresh, from the system's random source.",
  ["configurations", "histories", "inputs"], "all operations including failures, any umask, any logger",
  "The tests never look at modes, logs or randomness.",
  ["container.go", "api.go", "core.go"],
  [("file modes", "container.go writeKeyFile / ResetCache"), ("crypto/rand", "api.go GenerateKeyPair")],
  [], ["file modes and directory listing", "all log lines and error strings", "seeds of many generated keys"])

p("C20", "Caller-owned and returned buffers are independent of the key",
  "After a call returns, the caller may overwrite every buffer it passed in (seeds, messages, encoded keys and signatures) and every buffer it got back (encodings) without changing the behaviour of the key, public key or signature, and no call changes the buffers passed to it. Signatures and public keys stay intact when the key signs on, drops caches or is closed.",
  ["histories", "inputs"], "all operations taking or returning byte slices, followed by arbitrary writes to those slices and arbitrary later operations",
  "The tests never reuse or wipe a buffer.",
  ["api.go", "core.go"],
  [("copies in decoders", "api.go UnmarshalBinary"), ("copies out of cached subtrees", "api.go SignFrom, core.go AuthPath")],
  [], ["later results after overwriting caller-side buffers, poisoning dropped caches and unmapping closed ones"])

p("C21", "An intact cached subtree is reused, not recomputed",
  "Each subtree a key needs is computed at most once while it stays cached and intact: not again for later signatures, not by concurrent signers that need it at the same moment, not by precomputation and not after closing and reloading the key. The contents of a finished, intact subtree are never written to again, and with precomputation enabled a signer crossing into the next bottom subtree finds it already computed or being computed (unless computing it failed or the sequence number was set by hand).",
  ["schedules", "histories"], "all interleavings of signers and precomputation, all reload histories with an undamaged cache",
  "Recomputing gives the same bytes, so no functional test can notice; only time suffers.",
  ["core.go", "container.go", "api.go"],
  [("readiness and checked maps", "core.go getSubTree"), ("precomputation", "core.go getSeqNo, api.go EnableSubTreePrecomputation")],
  [("readiness maps", "which subtrees are filled and checked", "api.go")],
  ["writes to cache buffers (write-protected by the monitor once ready)", "allocation calls per subtree"])

p("C22", "Calls on one key are atomic",
  "Sign, BorrowExactly, BorrowExactlyIfBelow, SeqNo and BorrowedSeqNos on one open key, made by any number of goroutines, behave as if made one after the other: their results are those of some order of the calls that respects real time, in which signing takes the next number and one reserved number if there are any, a reservation leaves exactly the requested count (less only if the key has fewer left), and a conditional reservation acts on the count at that very moment. When no call is in progress, the position stored in the container is the sequence number plus the reserved count, and nothing is unretired.",
  ["schedules", "histories", "fault_sequences"], "all sets of overlapping calls, with container calls of any duration, some of which fail",
  "The tests compare the indices of signatures made in parallel; they never overlap reservations, queries and signing.",
  ["core.go", "api.go"],
  [("key mutex around sequence-number updates", "core.go getSeqNo, api.go BorrowExactly / BorrowExactlyIfBelow")],
  [("sequence number", "first number that is not handed out", "api.go PrivateKey.seqNo"), ("reserved count", "numbers between it and the stored position", "api.go PrivateKey.borrowed")],
  ["results of all calls with their order in real time", "the position stored when nothing is in progress"])

p("C23", "Key files keep their format and meaning across versions",
  "After every operation a key file is exactly the record it has been since the first version: the eight magic bytes, hash function (1 byte), N, full height, D (4 bytes each), Winternitz parameter (2), PRF (1), position (8), reserved count (4), all big endian in this order, then secret seed, PRF seed and public seed. Every such file of supported parameters loads with the position, loss count, public key and signatures that follow from its contents, whichever version or program wrote it, also next to a subtree cache of an earlier version (format 0 or 1). Signatures of earlier versions keep verifying.",
  ["histories", "inputs", "configurations"], "all parameter sets, positions and reserved counts, and all histories of a key handed between versions, closed or crashed",
  "The tests read only what the same build has just written.",
  ["container.go", "params.go", "api.go"],
  [("key file header", "container.go fsKeyHeader, writeKeyFile, open"), ("cache headers of two formats", "container.go openCache")],
  [("parameters as stored", "field order and sizes", "params.go Params")],
  ["bytes of the key file after each operation", "what the library, the first version and an independent parser read from it"])

p("C24", "What a process holds does not grow with the number of operations",
  "Signing (by one or many goroutines, overlapping, with precomputation, reservations, failing readers or a failing container), opening, loading and closing keys (also after crashes, and when opening, loading or deriving fails), parsing and verifying leave nothing behind: once calls have returned and background work has ended, the number of goroutines, open files, memory mappings, cached subtrees, files and bytes on disk, and the live heap do not depend on how often this was done before. An open key holds a bounded number of subtrees (about two per layer), a closed one no file, mapping or lock.",
  ["histories", "durations"], "histories of any length",
  "A leak of one mapping, descriptor, map entry or goroutine per operation breaks nothing in a test that runs for a second; a signing service runs for years.",
  ["api.go", "core.go", "container.go", "misc.go"],
  [("dropping of exhausted subtrees", "core.go incLeastSeqNoInUse, dropSubTree, precomputeSubTree"), ("mappings, files and locks", "container.go DropSubTree, closeCache, Close, open, lock, unlock")],
  [("retired numbers, subtree tables, free list", "grow by use, must shrink again", "api.go PrivateKey, container.go fsContainer")],
  ["goroutines, descriptors, mappings, directory contents and live heap of a process over its life"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
