#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,q,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
        "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(observe),"hook_needed":None}})

prop("C01","No argument makes a shipped client panic",
 "Every call of a verify or compute method of a client returned by one of the package's coin constructors (NewEthereum, NewKaspa, NewZCash, ...) returns normally: no argument value (slices of any length including nil, any bytes, heights, nonces, timestamps) makes it panic. For the DAG coins this covers every height in the first 50,000 epochs, and whatever was left in the cache directory.",
 ["inputs","configurations"],"all argument values x all 15 shipped clients x all states of the cache files",
 "The tests only feed well-formed vectors of correct length at a handful of heights; an index, division or slice panic needs an odd length, an extreme epoch or a damaged cache file.",
 ["ethash","kawpow","firopow","octopus","internal/dag","internal/progpow","equihash","beamhashiii","cuckoo","heavyhash","autolykos2","eaglesong","internal/crypto","internal/common"],
 [("length guards before fixed-offset reads","*/client.go"),("index arithmetic kept below row counts","internal/dag/generate.go, internal/progpow/algorithm.go, octopus/octopus.go, ethash/ethash.go"),("cache file size/magic validation before indexing","internal/dag/mmap.go")])
prop("C02","Wrong-length inputs are rejected with an error, right-length ones never",
 "A header hash or message that is not 32 bytes (ethash, kawpow, firopow, octopus, heavyhash, autolykos2), a Beam header that is not 40 bytes or solution that is not 104 bytes, an Equihash solution whose length is not exactly the minimal encoding for the coin's (n,k), and a Cuckoo proof without exactly 42 edges all yield a non-nil error and no digest or acceptance. A digest method given a correctly sized input never returns an error.",
 ["inputs"],"all input lengths for all clients with a fixed input size",
 "No test passes a wrong length to any client.",
 ["ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go","heavyhash/client.go","autolykos2/client.go","beamhashiii/client.go","cuckoo/client.go","equihash/equihash.go"],
 [("len() guard at the API boundary","*/client.go"),("minimal-length equation","equihash/equihash.go indicesFromMinimal")])
prop("C03","Cuckoo verification accepts only canonical 42-cycles",
 "The Aeternity and Cortex clients return true only if every edge index fits the edge mask, the edge indices are strictly ascending, the endpoints of each side XOR to zero, and following the edges from endpoint to matching endpoint visits all 42 edges in one single cycle without branch or dead end.",
 ["inputs"],"all headers and all 42-element edge lists",
 "The tests only verify known-good proofs; an accepted forgery (permuted, repeated, out-of-range or several short cycles) is never tried.",
 ["cuckoo/cuckoo.go","cuckoo/cuckaroo.go","cuckoo/client.go"],
 [("range and order test per edge","cuckoo/*.go first loop"),("xor test","cuckoo/*.go"),("cycle walk with branch, dead-end and length test","cuckoo/*.go second loop")])
prop("C04","Equihash verification enforces every Wagner condition",
 "An Equihash client (Flux, BitcoinGold, ZClassic, ZCash, Aion) returns true only if, at every level of the tree and for every pair of subtrees, the XOR of the leaf hashes collides on that level's full collision bits, the left subtree's first index does not exceed the right's and no index occurs in both, and the XOR of all leaf hashes is zero in the remaining bits, so that all n bits of every leaf hash are constrained. The indices are exactly the consecutive big-endian bit fields of the solution: every bit of the solution belongs to exactly one index.",
 ["inputs"],"all headers and all solutions x 5 parameter sets",
 "The tests verify known-good solutions of two coins; forged solutions missing one condition at one level are never tried and three coins are not tested at all.",
 ["equihash/equihash.go","equihash/client.go"],
 [("subtree validation at every level","equihash/equihash.go validateSubtrees, verify"),("final all-zero test","equihash/equihash.go verify"),("bit unpacking","equihash/equihash.go expandArray, indicesFromMinimal")])
prop("C05","BeamHash III verification enforces every tree condition",
 "The Beam client returns true only if, in each of the five rounds and for every pair of subtrees, the mixed work bits collide on all 24 low bits, the left subtree's first index does not exceed the right's and no index occurs in both, and the combined work bits after the last round are zero. The 32 indices are exactly the consecutive 25-bit fields of the first 100 solution bytes and the last four solution bytes enter the header hash.",
 ["inputs"],"all 40-byte headers and all 104-byte solutions",
 "The tests verify known-good solutions only; a solution violating one condition in one round is never tried.",
 ["beamhashiii/beamhashiii.go","beamhashiii/client.go"],
 [("subtree validation in every round","beamhashiii/beamhashiii.go validateSubtrees, verify"),("final zero test","beamhashiii/beamhashiii.go verify"),("index unpacking","beamhashiii/beamhashiii.go indicesFromMinimal")])
prop("C06","Results and errors are consistent",
 "A verifier never reports true together with a non-nil error. A digest method returns a nil error exactly when every digest it returns is non-nil and exactly 32 bytes long, and returns only nil digests together with an error.",
 ["inputs","fault_sequences"],"all inputs and all storage failures x all clients",
 "Tests look at success results of valid inputs only.",
 ["ethash","kawpow","firopow","octopus","heavyhash","autolykos2","eaglesong","equihash","beamhashiii","cuckoo"],
 [("result construction at each return","client.go and algorithm files of each package")])
prop("C07","Caller buffers are neither modified, retained nor returned",
 "No client method writes to any byte of a slice passed to it, nor to the spare capacity behind it; no client keeps a reference to such a slice after the call; and no returned slice shares memory with an argument, with another returned slice, or with state the library keeps, so later changes to any of them cannot influence one another.",
 ["inputs","histories"],"all inputs (including slices with spare capacity) and all later uses of arguments and results",
 "The tests pass literals once and never look at the argument, at spare capacity, or at a result after a second call.",
 ["ethash","kawpow","firopow","octopus","heavyhash","autolykos2","eaglesong","equihash","beamhashiii","cuckoo","internal/crypto","internal/common/convutil"],
 [("copies into fresh buffers before appending or hashing in place","autolykos2 concatBytes, equihash hashBlakeWithOffset, beamhashiii reverseBytes, ethash hashimoto, heavyhash")])
prop("C08","Results depend on the arguments alone",
 "What a compute or verify method returns is a function of its arguments and of the coin's fixed parameters: it does not depend on time, randomness, environment, map iteration order, scheduling, or on which calls the client or another client served before.",
 ["histories","inputs","schedules"],"all call histories, environments and inputs",
 "Each test makes a few calls in a fixed order; results that vary with history, time or environment would need other histories.",
 ["ethash","kawpow","firopow","octopus","heavyhash","autolykos2","eaglesong","equihash","beamhashiii","cuckoo","internal/dag","internal/crypto"],
 [("fresh hash state and buffers per call","internal/crypto/*.go"),("read-only package tables","eaglesong constants, lookup tables, masks")])
prop("C09","Every bit of every input is bound at its documented place",
 "The first hash of each algorithm consumes every bit of the inputs at the position the algorithm documents: header hash then little-endian nonce (ethash; progpow family as state words with both nonce halves), hash + 64-bit timestamp + 32 zero bytes + 64-bit nonce (heavyhash), message + big-endian nonce (autolykos2), header + little-endian 32-bit index with the personalisation and (n,k) (equihash), header + last four solution bytes (beam), header (cuckoo), the whole message plus delimiter (eaglesong). No two different inputs are merged by truncation, masking, sign handling or overlap before that hash, for any value.",
 ["inputs"],"all input values, in particular values whose high bits are set",
 "Vectors use few nonces, small timestamps and short messages: bytes that are zero in all vectors may be dropped or misplaced without any test noticing.",
 ["ethash/ethash.go","kawpow/kawpow.go","firopow/firopow.go","octopus/octopus.go","heavyhash/heavyhash.go","autolykos2/autolykos2.go","eaglesong/eaglesong.go","equihash/equihash.go","beamhashiii/beamhashiii.go","cuckoo/client.go"],
 [("preimage assembly","first lines of each algorithm")])
prop("C10","Concurrent use of clients is free of data races",
 "Any number of goroutines may call the same client, or different clients, at the same time, including while the library's own background generation runs, without any unsynchronised conflicting access to memory they share; in particular a cache is fully generated, by exactly one goroutine, before any of its content is read.",
 ["schedules","histories"],"all interleavings of any calls on shared clients and the background generator",
 "All tests are sequential; only the background generator runs beside them, on a different epoch.",
 ["internal/dag/dag.go","internal/dag/cache.go","internal/crypto/hasher.go","ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go"],
 [("mutex around the cache map, future cache and usage times","internal/dag/dag.go GetCache"),("sync.Once around generation","internal/dag/cache.go generate"),("per-call hasher","internal/dag/dag.go NewLookupFunc*")],
 [("DAG.caches, DAG.future, cache.used","cache bookkeeping","internal/dag/dag.go"),("cache.cache, cache.l1","generated data","internal/dag/cache.go")])
prop("C11","The data used always belongs to the height's own epoch",
 "For every height and after every history of earlier calls, the verification cache, L1 cache, seed and dataset size used by a compute call are those of the epoch height / epoch length of that coin: the seed is the Keccak-256 chain from 32 zero bytes iterated epoch-start / seed-epoch-length times and cache and dataset sizes are those of the same epoch. A pre-generated or retained cache is only ever used for the epoch it was generated for.",
 ["histories","inputs"],"all heights and all sequences of epochs requested before",
 "Tests visit one or two epochs per client, mostly with a fresh client, so eviction, pre-generation hand-over and epoch jumps never decide a result.",
 ["internal/dag/dag.go","internal/dag/cache.go","ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go"],
 [("map key equals cache epoch","internal/dag/dag.go GetCache"),("future cache used only on equal epoch","internal/dag/dag.go GetCache"),("seed and size derived from the cache's epoch","internal/dag/cache.go generate")],
 [("cache.epoch","epoch a cache belongs to","internal/dag/cache.go")])
prop("C12","Mapped cache memory stays mapped while it is read",
 "While a compute call still reads a memory-mapped cache or L1 cache, the object whose finalizer unmaps that memory is kept reachable, also when the client evicts it concurrently; memory is never read after it was unmapped or its file descriptor reused, and each mapping and descriptor is released at most once.",
 ["schedules","histories"],"all garbage-collection points and all concurrent evictions during a computation",
 "Whether the collector runs the finalizer inside a computation is a matter of timing that no test controls.",
 ["ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go","internal/dag/cache.go","internal/dag/mmap.go"],
 [("runtime.KeepAlive after the last read","*/client.go Compute"),("finalizer clears what it released","internal/dag/cache.go finalizer")])
prop("C13","Cache files become visible only complete",
 "A cache file under its final name is only ever created by renaming a fully written, flushed, unmapped and closed temporary file in the same directory; the library never opens, truncates or writes a file under its final name, nor a temporary file another process or goroutine may own. So a crash at any point leaves each final file absent, old, or complete.",
 ["crash_points","schedules"],"all crash points during generation and all concurrently generating processes",
 "No test crashes or races the generator, and all run with an undisturbed directory.",
 ["internal/dag/mmap.go","internal/dag/cache.go"],
 [("temporary file, flush, unmap, close, rename","internal/dag/mmap.go memoryMapAndGenerate")])
prop("C14","Files found on disk are trusted only after validation",
 "A cache or L1 file found on disk is used only if it carries the magic number and has exactly the size the epoch requires; anything else (missing, empty, truncated, oversized, foreign) is treated as absent and the data is generated anew. Validation never reads beyond the mapped file.",
 ["fault_sequences","crash_points"],"all contents and lengths of pre-existing files",
 "Tests start from an empty directory and only re-read files they just wrote.",
 ["internal/dag/mmap.go","internal/dag/cache.go"],
 [("size and magic comparison","internal/dag/mmap.go memoryMap"),("fallback to generation","internal/dag/cache.go generate")])
prop("C15","Storage failures fall back to memory and leak nothing",
 "If any step of loading or storing a cache or L1 file fails (directory, open, truncate, map, lock, flush, unmap, close, rename), the computation still runs on a completely generated in-memory cache of the right size for that epoch. On every such path each opened descriptor is closed, each mapping is unmapped and each temporary file is removed.",
 ["fault_sequences"],"all failing file operations, alone or combined, at every step",
 "The tests never let a file operation fail.",
 ["internal/dag/mmap.go","internal/dag/cache.go"],
 [("error paths","internal/dag/mmap.go"),("in-memory fallback","internal/dag/cache.go generate")])
prop("C16","Only own, stale, correctly named files are removed or created",
 "Every file the library creates, renames or removes lies directly in the client's storage directory and its name carries the kind of data, coin, revision and epoch seed, so that different coins, revisions, epochs or kinds never share a file. Removal touches, besides own temporary files, only cache files of epochs at least the retention count (3) older than the epoch just generated, never that of the current or a newer or recently retained epoch.",
 ["histories","configurations"],"all sequences of epochs and all coins sharing one directory",
 "Tests do not inspect the directory and rarely reach an epoch at which anything is removed.",
 ["internal/dag/dag.go","internal/dag/cache.go","internal/dag/mmap.go","internal/common/filesystem.go"],
 [("file naming","internal/dag/dag.go cacheStorageLocation, l1StorageLocation"),("deletion loop bound","internal/dag/cache.go generate")])
prop("C17","Cache and dataset sizes equal the protocol formula for every epoch",
 "For every epoch of the first 50,000 the cache size and dataset size in use are the largest prime multiple of 64 bytes (cache) or of the mix width (dataset) below the coin's initial size plus growth times epoch, stepping down from the formula's start in steps of two rows, whether the value comes from a precomputed table or is computed. Each table has an entry for every epoch it is consulted for.",
 ["inputs"],"all epochs of all five DAG coins, inside and beyond the tables",
 "The tests compare the first ten epochs of the computed formula; no entry of the 2 x 4 x 2048 tables is compared, nor any epoch at the table's end.",
 ["ethash/ethash_lookup.go","kawpow/kawpow_lookup.go","firopow/firopow_lookup.go","octopus/octopus_lookup.go","internal/dag/dag.go","internal/dag/config.go","cmd/gen-lookup/main.go"],
 [("table lookup with bound","internal/dag/dag.go CacheSize, DatasetSize"),("formula","internal/dag/dag.go calcCacheSize, calcDatasetSize")])
prop("C18","Each coin constructor ships that coin's consensus parameters",
 "Every coin constructor configures the published parameters of its coin: epoch length, seed epoch length, initial and growth sizes, mix width, parents per dataset item, cache rounds and L1 size for the DAG coins; period length and program shape for the ProgPow coins; (n,k), personalisation and twist for Equihash and Beam; edge bits, proof size, variant and siphash flavour for Cuckoo; table size, rounds, rates and delimiter for the others. The parameters used to regenerate the size tables agree with the ones used at run time.",
 ["configurations"],"all 15 shipped coins, every parameter",
 "Parameters that matter only beyond the heights and sizes in the vectors (growth, epoch length, table bound, untested coins) are not observed by any test.",
 ["ethash/client.go","kawpow/client.go","kawpow/kawpow.go","firopow/client.go","firopow/firopow.go","octopus/client.go","equihash/client.go","beamhashiii/client.go","cuckoo/client.go","autolykos2/client.go","eaglesong/client.go"],
 [("constructors","client.go of each package"),("go:generate directives","client.go of the DAG packages")])
prop("C19","XORBytes behaves identically on every platform",
 "On every architecture, for all lengths of the three slices, XORBytes writes exactly dst[i] = a[i] ^ b[i] for all i below the shorter input length, writes nothing else, reads nothing outside the inputs, and returns that length; it panics exactly if the destination is shorter.",
 ["inputs","configurations"],"all lengths and alignments x amd64, arm64 and generic builds",
 "The tests exercise only the build architecture, up to 1024 bytes.",
 ["internal/common/bitutil"],
 [("per-architecture implementations","internal/common/bitutil/xor_*.go, xor_*.s")])
prop("C20","Every call terminates",
 "Every call of a verify or compute method of a shipped client finishes after a bounded number of steps for every input: each loop has a bound derived from the parameters or input lengths, or makes progress towards its exit by a strictly decreasing measure.",
 ["inputs"],"all inputs of all clients",
 "An input for which a loop makes no progress is not among the vectors.",
 ["octopus/octopus.go","heavyhash/matrix.go","cuckoo","internal/dag","equihash","beamhashiii"],
 [("loop counters and decreasing measures","all loops")])
prop("C21","Locks are released and never held across slow work",
 "Every lock taken during a call is released on every path out of it, is not taken twice by the same goroutine, and is not held while a cache is generated, loaded or stored or while a digest is computed, so one goroutine generating an epoch never blocks others that need a different epoch and no call deadlocks.",
 ["schedules"],"all paths and all interleavings of calls for different epochs",
 "The tests are sequential, so a lock held across generation, or leaked on a rare path, only costs time or is never noticed.",
 ["internal/dag/dag.go","internal/dag/cache.go"],
 [("unlock before generation","internal/dag/dag.go GetCache")])
prop("C22","Ergo's table size follows the growth schedule at every height",
 "For every height the Autolykos table size equals 2^26 before height 614,400, then grows by 5% (integer arithmetic, division by 100 first) at 614,400 and every 51,200 blocks after it up to height 4,198,400, and is 2,143,944,600 beyond it; every index derived for a message is reduced modulo exactly that size.",
 ["inputs"],"all 2^64 heights",
 "The test samples a few heights; an off-by-one at any of the 71 steps or at the plateau is invisible otherwise.",
 ["autolykos2/autolykos2.go"],
 [("growth loop","autolykos2/autolykos2.go calcN"),("reduction of indexes","autolykos2/autolykos2.go genIndexes, compute")])
prop("C23","A client keeps a bounded number of epochs in memory",
 "Whatever the sequence of heights requested, a client retains at most three requested epochs plus one pre-generated epoch, and starts at most one background generation per newly requested epoch.",
 ["histories"],"all sequences of requested epochs",
 "No test requests more than a few epochs from one client or measures what is retained.",
 ["internal/dag/dag.go"],
 [("eviction at the limit","internal/dag/dag.go GetCache")],
 [("DAG.caches","retained caches","internal/dag/dag.go")])
prop("C24","Whole digests equal each algorithm's specification",
 "For every input the digest of each compute method, and the hash inputs of each verifier, equal those of the coin's reference implementation bit for bit.",
 ["inputs"],"all inputs of all algorithms",
 "Vectors sample a vanishing fraction of the inputs.",
 ["ethash","kawpow","firopow","octopus","heavyhash","autolykos2","eaglesong","internal/crypto","internal/progpow"],
 [("the algorithms","all packages")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
