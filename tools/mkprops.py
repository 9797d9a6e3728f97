#!/usr/bin/env python3
"""Generates properties.jsonl (single source of the property texts)."""
import json, os
I = "include/maidsafe/common/"
S = "src/maidsafe/common/"
P = []
def p(id, title, stmt, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=stmt,
                  quantifier=dict(over=over.split(","), text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["public API return values, exceptions and callbacks"],
                               hook_needed=None)))

# ---------------------------------------------------------------- concurrency primitives
p("A01", "Active object: each functor runs exactly once, in order, one at a time",
  "Functors sent to an active object by one thread run in the order sent; every functor whose send returned before destruction began runs exactly once, never concurrently with another functor of the same object and never on the sending thread. "
  "Destroying the object returns only after all of these have finished, and neither sending nor destruction ever deadlocks, whether functors are sent from other threads or from a running functor.",
  "schedules,histories", "every interleaving of senders, worker and destructor",
  "the repository test sends from a few threads under whatever schedule the OS picks",
  [I+"active.h", S+"active.cc"],
  [("queue + condition variable hand-off", S+"active.cc Active::Send/Run"), ("quit functor sent by the destructor, join", S+"active.cc Active::~Active")])
p("A02", "Thread-safe queue is a linearisable FIFO and blocked poppers always wake",
  "A shared queue behaves as one atomic FIFO: every pushed element is popped exactly once, in push order, a non-blocking pop reports failure (leaving its output untouched) only when the queue was empty at some moment during the call, and reported sizes match some moment of the call. "
  "A blocking pop returns only with an element, and never stays blocked while the queue has an element that no other popper takes.",
  "schedules,histories", "every interleaving of pushers and poppers",
  "tests run two threads once; linearisability and lost wake-ups are schedule properties",
  [I+"safe_queue.h"], [("mutex-protected std::queue, notify after push", I+"safe_queue.h")])
p("A03", "I/O thread pool: work posted before stop runs exactly once, stop drains",
  "A thread pool service built with n>0 threads reports n threads and runs every handler posted before Stop exactly once before Stop returns, on a pool thread, including those posted in turn by these handlers; zero threads is rejected with invalid_argument. "
  "After Stop the reported thread count is 0, further Stop calls are no-ops, and Stop called from a pool thread, even while another thread is stopping the pool, throws cannot_invoke_from_this_thread and changes nothing.",
  "schedules,histories,configurations", "every pool size, posting history and interleaving of posters, handlers and stoppers",
  "tests use one schedule per run and few handlers",
  [I+"asio_service.h"], [("work guard reset then join", I+"asio_service.h IoService::Stop")])
p("A04", "Scope guard runs its current action exactly once unless released",
  "A scope guard runs, exactly once, the action most recently set when its scope is left - normally or by an exception - and runs nothing if it was released or its action was cleared. "
  "A revert action restores the value its variable had when the action was created, and nested guards run in reverse order of construction.",
  "histories", "every nesting, sequence of set/release calls and exit path",
  "tests try one sequence per feature", [I+"on_scope_exit.h"], [("destructor runs action_", I+"on_scope_exit.h")])
p("A05", "Spin lock: one holder at a time, who sees the work of those before it",
  "At most one thread is between the acquisition and the release of a spin lock, and everything earlier holders wrote before releasing it is visible to the next holder, without a data race. "
  "A thread which asks for the lock while no other holds it for ever gets it, after any number of sections, and locks are independent of each other, whatever the schedule.",
  "schedules,histories", "every interleaving of any number of threads, and every length of section",
  "no test uses the lock directly; a weakened memory order or a lost release shows in rare schedules only",
  [I+"utils.h"], [("test, compare and exchange, release", I+"utils.h Spinlock::lock/unlock/try_lock")])
# ---------------------------------------------------------------- lru cache
p("L01", "LRU cache: capacity bound, least-recently-used eviction, exact contents",
  "A cache of capacity n never holds more than n entries; adding a new key to a full cache evicts exactly the least recently used entry, where adding a key and each successful lookup make it most recently used. "
  "Lookups return the value stored for a held key and nothing otherwise, adding a held key changes nothing, and deletion removes exactly that key, for every sequence of operations.",
  "histories,inputs", "every history of add/get/check/delete for every capacity",
  "tests check a couple of fixed sequences", [I+"containers/lru_cache.h"],
  [("usage list + map", I+"containers/lru_cache.h LruCache::Add/Get/Delete")])
p("L02", "Time-limited cache never evicts live entries nor keeps expired ones on add",
  "In a cache with a time-to-live, an entry is never dropped before it is older than its time-to-live, counted from when it was added (unless capacity forces it out or it is deleted). "
  "Each addition of a new key drops, from the least recently used entry on, those older than the time-to-live up to the first which is not, so that with no lookups in between no expired entry survives an addition. A cache with both limits honours both.",
  "histories,schedules", "every history of operations interleaved with the passage of time",
  "tests sleep through one fixed timeline", [I+"containers/lru_cache.h"],
  [("time stamps + expiry sweep on Add", I+"containers/lru_cache.h")])
# ---------------------------------------------------------------- data buffer
DB=[I+"data_buffer.h", S+"data_buffer.cc"]
p("D01", "Data buffer: get returns the last value stored for a key, byte for byte",
  "A get of a key returns exactly the value of the latest completed store of that key, wherever the value currently resides (memory, being written, or disk), and throws no_such_element when the key was never stored or was deleted since. "
  "This holds at every moment, including while values are being moved from memory to disk by the background worker, and across re-stores and deletions of the same key; a get which overlaps a store or deletion of its key answers with the state before, during (absent) or after it. Values which have been handed to the eviction callback may or may not still be found.",
  "schedules,histories", "every interleaving of client calls and the background worker",
  "tests poll with sleeps and see one schedule", DB,
  [("memory and disk indices, kStarted/kCompleted/kCancelled states", S+"data_buffer.cc")])
p("D02", "Data buffer keeps memory and disk usage within the configured limits",
  "The values held in memory never total more than the memory limit and the files in the buffer's directory never total more than the disk limit, at any moment and through any history of stores, deletions and limit changes (after a limit has been reduced, what was already there counts as allowed). "
  "A store waits for space rather than exceeding a limit, and throws cannot_exceed_limit when the value alone is larger than the disk limit (which also stops the buffer: later calls fail).",
  "schedules,histories,configurations", "every interleaving and every pair of limits",
  "tests use two sizes and one schedule", DB,
  [("usage accounting under the store mutexes", S+"data_buffer.cc WaitForSpaceInMemory/WaitForSpaceOnDisk/HasSpace")])
p("D03", "Data buffer evicts oldest first, exactly once, and loses nothing",
  "When the disk limit forces values out, they are handed to the eviction callback in the order they were stored, each exactly once and with the value stored. "
  "Every value stored and not deleted or overwritten is, at any quiescent point, retrievable with get unless it has been handed to the callback.",
  "schedules,histories", "every interleaving and overflow history",
  "tests check one overflow pattern", DB, [("pop loop", S+"data_buffer.cc WaitForSpaceOnDisk")])
p("D04", "Data buffer deletions take effect at once and give their space back",
  "After deleting a key (or all keys matching a predicate) the key cannot be retrieved nor handed to the eviction callback afterwards, the other keys are unaffected, and the space the value occupied in memory and on disk becomes available to later stores. "
  "Deleting a key which is not held (on disk, or in memory awaiting its copy to disk) throws no_such_element; deleting by predicate does not.",
  "schedules,histories", "deletion at every stage of a value's move from memory to disk",
  "tests delete only settled values", DB, [("cancellation of in-progress copies, file removal", S+"data_buffer.cc Delete/DeleteFromMemory/DeleteFromDisk")])
p("D05", "Data buffer construction, limit changes and shutdown obey their contract",
  "Construction with a memory limit above the disk limit, and changes that would put memory above disk, throw invalid_argument and change nothing; construction over a directory which can't be created or written to throws uninitialised; accepted limits take effect for subsequent stores. "
  "Destroying the buffer stops the background work without deadlock and leaves no file in a temporary directory of its own, while a directory it was given is removed only if it was asked to, with other files in it left alone otherwise.",
  "histories,configurations,schedules", "every pair of limits, directory state and shutdown moment",
  "tests try a few fixed values", DB, [("constructor checks, Init, StopRunning", S+"data_buffer.cc")])
p("D06", "Data buffer calls never block forever while space can be made",
  "Every store, get, delete and destruction completes whenever the value can be accommodated by moving older values to disk or handing them to the eviction callback; no interleaving of calls, worker and limit changes leaves a call blocked although there is room.",
  "schedules,histories", "every interleaving", "a lost wake-up needs a specific schedule", DB,
  [("condition variables cond_var_", S+"data_buffer.cc")])
# ---------------------------------------------------------------- SDV
SD=[I+"data_types/structured_data_versions.h", S+"data_types/structured_data_versions.cc"]
p("S01", "Version tree: tips and branches always reflect exactly the accepted puts",
  "After any sequence of puts, deletions and clears, the reported tips are exactly the versions no other held version names as its parent, in descending order, and each tip's branch is the chain of held parents above it, stopping at the root or at a parent that is absent. "
  "Putting an already held version with the same parent changes nothing; with a different parent, as second root, or in a way that would make a version its own ancestor, it throws invalid_argument and changes nothing.",
  "histories,inputs", "every history of operations over every shape of version forest",
  "tests build a few fixed forests; insertion order, orphans and forks combine without bound", SD,
  [("versions map with parent/child links, tips and orphans sets", S+"data_types/structured_data_versions.cc Put")])
p("S02", "Version tree never exceeds its version and branch limits; evicts its root",
  "The number of held versions never exceeds max_versions and the number of tips never exceeds max_branches. "
  "A put that would exceed a limit removes and returns the current root - its smallest child, or failing that its smallest orphan, becoming root - or leaves the object unchanged and either returns the new version itself (when it would be the new root) or throws cannot_exceed_limit.",
  "histories,configurations", "every history and every pair of limits",
  "tests exercise two limit pairs on linear histories", SD,
  [("CheckVersionsLimit/CheckBranchCount/EraseRoot/ReplaceRoot", S+"data_types/structured_data_versions.cc")])
p("S03", "A version-tree operation that throws leaves the object unchanged",
  "Whenever an operation on a version tree throws, for whatever argument, every observable of the object (tips, branches, serialised form, answers to later operations) is the same as before the call.",
  "histories,inputs,fault_sequences", "every state, operation and argument",
  "tests assert the exception, not the untouched state", SD,
  [("checks before mutation; ApplySerialised works on a copy", S+"data_types/structured_data_versions.cc")])
p("S04", "Deleting a branch removes the tip's chain down to the fork and nothing else",
  "Deleting a branch until its fork removes the given tip and its ancestors up to, but excluding, the first ancestor that still has another child (or everything up to the top if there is none); all other versions, tips and parent links stay as they were. "
  "A version that is held but is not a tip is rejected with invalid_argument, an unknown one with no_such_element.",
  "histories,inputs", "every forest shape and tip", "tests delete from a handful of forests", SD,
  [("DeleteBranchUntilFork", S+"data_types/structured_data_versions.cc")])
p("S05", "Version trees survive serialisation and merging; clear resets them",
  "Parsing a serialised version tree yields an object with the same limits, tips, branches and answers to later operations; applying a serialised tree gives the same result as putting its and one's own versions into the serialised one. "
  "Moving, swapping, copying by serialisation and clearing keep both objects fully usable, and malformed input throws a parsing error instead of being accepted.",
  "histories,inputs", "every reachable object (and truncation or corruption of its serialised form)",
  "tests round-trip a few objects", SD, [("Serialise/ParseFromString/ApplySerialised/swap", S+"data_types/structured_data_versions.cc")])
# ---------------------------------------------------------------- TCP
TC=[I+"tcp/connection.h", I+"tcp/listener.h", S+"tcp/connection.cc", S+"tcp/listener.cc"]
p("T01", "TCP messages arrive exactly once, whole, unmodified and in sending order",
  "What the receive callback of one end gets is always a prefix of the messages whose Send succeeded at the other end, in sending order, each whole, byte for byte and once, however the byte stream is fragmented; and while neither end has closed, every message sent is eventually delivered to a started peer. "
  "Callbacks of one end never run concurrently.",
  "schedules,inputs,fault_sequences", "every message sequence, fragmentation and schedule",
  "tests send a few messages over loopback, which rarely fragments", TC,
  [("size-prefixed framing, send queue on a strand", S+"tcp/connection.cc")])
p("T02", "TCP framing: 4-byte big-endian size; oversize and empty messages are refused",
  "Each message travels as a 4-byte big-endian length followed by exactly that many bytes. "
  "Sending an empty message throws outside_of_bounds, one larger than 1 MiB ipc_message_too_large, and neither sends anything; receiving a length above 1 MiB closes the connection without delivering any part of it.",
  "inputs,fault_sequences", "every message size and incoming header",
  "tests check one oversize send", TC, [("EncodeData/ReadSize", S+"tcp/connection.cc")])
p("T03", "A closed TCP connection reports it exactly once and delivers nothing more",
  "However a connection that was open when Start returned ends - local close, peer close, abrupt reset or partial frame at any byte - its closed callback runs exactly once, no message is delivered during or after it, and an incomplete message is never delivered. "
  "The callback does not run while the connection is open. Closing again has no effect, and starting twice does not register callbacks twice.",
  "schedules,fault_sequences", "every close point and schedule", "tests close at a quiet moment", TC,
  [("DoClose under a once_flag", S+"tcp/connection.cc")])
p("T04", "TCP listener: accepts until stopped, chooses a free port, then goes quiet",
  "A listener takes the first free port among the one asked for and the ten above it (none above 65535), reports that port, and fails with failed_to_listen if there is none. "
  "Until it is stopped every connection made to it is reported exactly once, one at a time, with a live connection, even if single accepts fail for want of resources. "
  "Once StopListening has taken effect (also when called repeatedly, from its own callback, or with the last pointer to the listener released) no connection is reported, connecting is refused and the port can be bound again.",
  "schedules,histories,fault_sequences", "every connect/stop interleaving and pattern of busy ports", "tests stop when idle", TC,
  [("HandleAccept/StopListening", S+"tcp/listener.cc")])
# ---------------------------------------------------------------- sqlite
p("Q01", "Database transactions are atomic: all on commit, nothing otherwise",
  "All statements executed inside a transaction become visible together when it is committed, and none is ever visible to later readers if the transaction object is destroyed without commit - by normal exit, exception, failed statement, a failing access to the files, or a crash of the process at any point. Read-write transactions of several connections and processes take effect one after another. What is not a database is refused, at the latest when it is used, with the error which says so and without trying again; a file is created only when asked for.",
  "crash_points,histories,fault_sequences", "every sequence of transactions, every crash point, every interleaving of processes",
  "tests commit or roll back once; crash points are not tried",
  [I+"sqlite3_wrapper.h", S+"sqlite3_wrapper.cc"], [("Transaction begin/commit/rollback", S+"sqlite3_wrapper.cc")])
p("Q02", "Prepared statements bind, step, reset and read back values faithfully",
  "A value bound to a prepared statement (any bytes including embedded zero and invalid UTF-8 for blobs, any text) is what a later query returns in that column; a statement reports a row exactly while rows remain, in order, and after reset yields the same rows from the start. "
  "Invalid SQL, invalid parameter indices and constraint violations throw and leave the stored data unchanged.",
  "histories,inputs", "every sequence of bind/step/reset and value", "tests bind two texts",
  [I+"sqlite3_wrapper.h", S+"sqlite3_wrapper.cc"], [("Statement", S+"sqlite3_wrapper.cc")])
# ---------------------------------------------------------------- ipc
p("I01", "Shared memory returns exactly the strings last stored under the name",
  "Reading n strings from a named shared memory area returns exactly the first n strings of the latest creation under that name - any bytes, from any process, as often as wanted - until the area is removed or recreated. "
  "Reading a removed or never created area, or more strings than it holds, throws; areas of different names never affect each other, and an area outlives the process which created it.",
  "histories,inputs,schedules", "every history of create/read/remove over several names and processes",
  "test stores one list once", [I+"ipc.h", S+"ipc.cc"], [("boost managed shared memory, one object per index", S+"ipc.cc")])
# ---------------------------------------------------------------- errors
ER=[I+"error.h", S+"error.cc", S+"error_categories.h", S+"error_categories.cc"]
p("E01", "Errors survive their integer and serialised form; codes are unique",
  "Every error of every category maps to an integer, distinct for distinct errors, from which the same error (code and category) is recovered, also through serialisation of a thrown error. "
  "Integers and serialised forms that correspond to no error are rejected or reported as unknown rather than mapped to a different valid error.",
  "inputs", "all error enumerators of all categories, all integers",
  "tests check a sample of enumerators", ER, [("offset per category", S+"error.cc ErrorToInt/IntToError")])
p("E02", "Every error has its own category and message",
  "Every error enumerator makes an exception whose code carries that enumerator's value and its own category, whose category name is unique, and whose message is the non-empty one documented for that enumerator, different from the messages of the other enumerators in its category; default error conditions compare equal to the code.",
  "inputs", "all enumerators", "tests check few", ER, [("MakeError, categories' message()", S+"error_categories.cc")])
# ---------------------------------------------------------------- encode
p("N01", "Hex and base64 encoding are exact inverses with strict input checking",
  "Decoding the hex or base64 encoding of any byte sequence yields that sequence; hex uses two lower-case digits per byte and base64 the standard alphabet with padding. "
  "Upper-case hex digits decode like lower-case ones. Hex strings of odd length or with a character that is not a hexadecimal digit, and base64 strings whose length is no multiple of four, with a character outside the alphabet or with anything after padding, are rejected with invalid_conversion, never decoded to something else.",
  "inputs", "all byte sequences and all candidate encodings", "tests use random and few hand-picked strings",
  [I+"encode.h", S+"encode.cc"], [("Encode/Decode", I+"encode.h")])
# ---------------------------------------------------------------- bounded string
p("B01", "Bounded strings never hold a value outside their bounds",
  "A size-bounded string is either uninitialised - every read of it throws uninitialised - or holds exactly the value it was given, whose size lies within its bounds; constructing one out of bounds throws outside_of_bounds, parsing one throws parsing_error, and neither changes any other value. "
  "Comparison is a total order consistent with the contents with uninitialised values equal and first, copies (also between differently bounded types that both admit the value) are equal and independent, a moved-from value is as if default-constructed, and XOR of two equals is all-zero and inverts itself.",
  "inputs,histories", "every size, bound and sequence of construction/copy/move/assign/compare",
  "tests try a few sizes and no histories", [I+"bounded_string.h"], [("OutwithBounds check, valid_ flag", I+"bounded_string.h")])
p("B02", "Tagged values: distinct types, same content, order and hash as the value",
  "A tagged value yields exactly the wrapped value; equality, ordering, hash and serialised round trip agree with those of the wrapped value, and copies and moves preserve it.",
  "inputs,histories", "every value and history", "no such test exists",
  [I+"tagged_value.h"], [("TaggedValue", I+"tagged_value.h")])
# ---------------------------------------------------------------- identity
p("X01", "Identity closeness is the XOR metric",
  "For identities a, b and target t, 'a is closer to t than b' holds exactly when a XOR t is less than b XOR t as big-endian numbers; hence it is a strict total order on identities for each target. "
  "The number of common leading bits of two identities is the position of their first differing bit (the full length if equal), and uninitialised arguments throw invalid_identity.",
  "inputs", "all triples of identities", "tests use random triples, which differ in the first byte",
  [I+"identity.h", S+"identity.cc"], [("CloserToTarget, CommonLeadingBits", S+"identity.cc")])
p("X02", "Identity encodings are faithful and wrong sizes are refused",
  "Making an identity from its binary, hex or base64 encoding gives the same identity back, encodings of uninitialised identities throw, and an encoded string that does not decode to exactly the identity size is rejected with invalid_identity. "
  "Randomly made identities have the right size.",
  "inputs", "all identities, all string lengths", "tests try one identity", [I+"identity.h", S+"identity.cc"],
  [("Encode/MakeIdentity", S+"identity.cc")])
# ---------------------------------------------------------------- data types
DT=[I+"data_types/data.h", S+"data_types/data.cc", I+"data_types/immutable_data.h", S+"data_types/immutable_data.cc", I+"data_types/mutable_data.h", S+"data_types/mutable_data.cc"]
p("K01", "Data objects: content-derived names, faithful round trips, no tampering",
  "An immutable data object's name is the hash of its content and a mutable one keeps the name it was given; serialising and parsing yields an equal object of the same dynamic type, name, type id and value. "
  "A serialised immutable object whose name does not match its content is rejected, by an exception, when parsed; uninitialised objects throw uninitialised when accessed.",
  "inputs,histories", "every value, every type, every copy/move/serialise history", "tests parse one of each",
  DT, [("constructors, polymorphic serialisation", S+"data_types/immutable_data.cc")])
p("K02", "Data name and type ids order, compare and convert to file names one to one",
  "Pairs of data name and type id are equal exactly if both parts are, are totally ordered (name first) consistently with equality, serialise faithfully, and convert to a file name from which the same pair is recovered; different pairs have different file names and malformed names are rejected.",
  "inputs", "all pairs", "one round trip tested", DT+[I+"utils.h", S+"utils.cc"],
  [("GetFileName/GetDataNameAndTypeId, comparison operators", S+"utils.cc")])
# ---------------------------------------------------------------- hash
p("H01", "SipHash is SipHash-2-4 and independent of how input is split",
  "For every key and message the 64-bit result equals SipHash-2-4 of the message, regardless of the sizes of the pieces in which the message is supplied; a hasher copied mid-way continues independently of its original.",
  "inputs,histories", "all lengths, splits and keys", "tests only check that hashes of different inputs differ",
  [I+"hash/algorithms/siphash.h", S+"hash/algorithms/siphash.cc", I+"hash/algorithms/hash_algorithm_base.h"],
  [("block buffer + FinalizeInternal", S+"hash/algorithms/siphash.cc")])
p("H02", "Hash append feeds equal values equal bytes and different values apart",
  "Hashing a value through the generic hashing interface depends only on the value: equal values of the supported types (integers, float, double, enums, strings, vectors, arrays, pairs, tuples, maps and nested ones) give equal hashes for the same seed, for a fixed sequence of types containers and strings are delimited so that moving elements between neighbouring containers changes what is hashed, and any hash algorithm receives the same bytes in the same order.",
  "inputs", "all supported types and values", "tests cover single values",
  [I+"hash/algorithms/hash_algorithm_base.h", I+"hash/wrappers/seeded_hash.h", I+"hash/hash_algorithms.h", I+"hash/hash_array.h", I+"hash/hash_contiguous.h", I+"hash/hash_data_range.h", I+"hash/hash_forward_list.h", I+"hash/hash_initializer_list.h", I+"hash/hash_iterator_range.h", I+"hash/hash_list.h", I+"hash/hash_map.h", I+"hash/hash_numeric.h", I+"hash/hash_pair.h", I+"hash/hash_range.h", I+"hash/hash_set.h", I+"hash/hash_string.h", I+"hash/hash_string_ref.h", I+"hash/hash_tuple.h", I+"hash/hash_use_serialize.h", I+"hash/hash_vector.h", I+"hash/hash_wrappers.h"],
  [("HashAppend overloads", I+"hash")])
# ---------------------------------------------------------------- crypto
CR=[I+"crypto.h", S+"crypto.cc"]
p("C01", "Symmetric encryption round-trips and rejects any other key or tampering",
  "Decrypting with the same key and IV returns the plaintext exactly, and encrypting is a function of text, key and IV whose result is the text's size plus 16; decrypting a ciphertext with any bit inverted, shortened or extended, or with a key or IV differing in any bit, throws symmetric_decryption_error and never returns data. "
  "Uninitialised arguments throw uninitialised.",
  "inputs,fault_sequences", "all plaintexts, keys and modifications", "tests modify one byte",
  CR, [("AES-GCM", S+"crypto.cc SymmEncrypt/SymmDecrypt")])
p("C02", "Secret sharing and dispersal recover from any threshold of parts",
  "Splitting data into n parts with threshold t (2 <= t <= n, n >= 3; anything else throws invalid_argument) yields n different parts. Secret shares: any t or more of them, in any order, recover exactly the data, and splitting again gives other parts; dispersal: any t of them, in any order, do. "
  "Fewer than t parts never recover the data.",
  "inputs,configurations", "all n, t and subsets of parts", "tests drop one fixed subset",
  CR, [("SecretShareData/SecretRecoverData/InfoDisperse/InfoRetrieve", S+"crypto.cc")])
p("C03", "Compression round-trips at every level; invalid input is refused",
  "Uncompressing the compression of any non-empty text, at every level 0 to 9, returns the text exactly; other levels throw invalid_argument, an empty text throws uninitialised. "
  "Inverting bits of a compressed text either makes uncompressing throw or leaves the result the same, and losing its end always makes it throw.",
  "inputs,fault_sequences", "all texts, levels, corruptions", "tests use one text",
  CR, [("Compress/Uncompress", S+"crypto.cc")])
p("C04", "RSA: signatures and ciphertexts verify only with their key and content",
  "A signature of a text or file made with a private key verifies with its public key for exactly the signed content, and for no other content, key or altered signature; encryption with the public key is undone by its private key only, and altered content or a missing end makes decryption throw. "
  "Keys survive their encoding, only matching keys compare equal, cut encodings and those of the other kind throw; uninitialised or invalid arguments throw the documented errors.",
  "inputs,histories", "all keys, contents and alterations", "tests try one alteration",
  [I+"rsa.h", S+"rsa.cc"], [("Sign/CheckSignature/Encrypt/Decrypt", S+"rsa.cc")])
p("C05", "Derived passwords and hashes depend on all of their inputs, and only those",
  "Deriving a secure password is PBKDF2 with HMAC-SHA-512 of the password, with the salt followed by the label, 10000 plus pin modulo 10000 iterations, and 48 bytes as result, so it depends on password, salt, pin and label and nothing else; uninitialised inputs throw uninitialised. "
  "Hashes are SHA-1, SHA-256, SHA-384 and SHA-512 of the bytes, whatever string type holds them.",
  "inputs", "all inputs", "tests compare two", CR, [("CreateSecurePassword, Hash", I+"crypto.h")])
# ---------------------------------------------------------------- authentication
AU=[I+"authentication/detail/secure_string.h", S+"authentication/detail/secure_string.cc"]
p("U01", "Secure input buffers hold exactly what was typed and nothing before that",
  "After any sequence of insertions and removals at positions, a finalised input holds exactly the characters in order of position, matches its acceptance rule, and yields the same value and hash as the text itself; an unfinalised input cannot be read, and an edit of a finalised one makes it unfinalised again. "
  "Inserting at an occupied position moves what is there and after it up; removing moves what is after it down. Invalid insertions, removals or finalisation throw without altering the contents. Secret texts are joined without change, and credentials moved to another holder arrive there complete.",
  "histories,inputs", "every edit history", "tests try a few edits",
  [I+"authentication/detail/secure_string.h", I+"authentication/user_credentials.h"], [("SecureInputString Insert/Remove/Finalise", AU[0])])
p("U02", "Secret memory is pinned while in use and erased when released",
  "Memory handed out by the secure allocators is locked against paging for as long as any live allocation overlaps its page, pages are unlocked when the last such allocation goes, and every byte of a released block is overwritten with zero before its pages are unlocked and before it is returned to the system.",
  "histories", "every sequence of allocations and releases, overlapping pages",
  "tests check one allocation", [I+"authentication/detail/safe_allocators.h", S+"authentication/detail/secure_string.cc"],
  [("page reference counts, erase on deallocate", I+"authentication/detail/safe_allocators.h")])
p("U03", "Credential obfuscation and keys are deterministic and self-inverse",
  "Obfuscating data is the exclusive or with the pad derived from keyword, pin and password, repeated as needed: twice gives the original data and the size never changes; user passwords and pads are functions of all the credentials as documented (password-based derivation over their SHA-512 hashes with the pin's value), and missing credentials throw uninitialised instead of producing output.",
  "inputs", "all credentials and data", "tests try one set",
  [I+"authentication/user_credential_utils.h", S+"authentication/user_credential_utils.cc"], [("Obfuscate/CreateSecureTmidPassword", S+"authentication/user_credential_utils.cc")])
# ---------------------------------------------------------------- menu / cli
p("M01", "Menu navigation runs exactly the chosen operations and returns on exit",
  "For every menu tree and every sequence of entered choices, exactly the operations of the chosen items run, once per choice and in order; choosing an item with sub-items descends, the back choice ascends to the parent (running the parent's operation, as for any item entered), invalid input changes nothing, and the exit choice ends the loop. "
  "An operation that throws, or the end of the input, ends the loop with an error as its result.",
  "histories,inputs", "every tree and input sequence", "tests walk one path",
  [I+"menu.h", S+"menu.cc", I+"menu_item.h", S+"menu_item.cc"], [("Run/ExecuteOption", S+"menu.cc")])
p("M02", "Command line input is parsed and tokenised faithfully",
  "Tokenising a line yields a leading '--' part and its space-separated tokens in order; a typed read returns the number or first word of the line entered, throws invalid_argument for anything else and unknown at the end of input, with echo off only while asked to be and on again afterwards; password entry repeats until both entries agree and yields the SHA512 of it.",
  "inputs,histories", "every line", "tests try three lines", [I+"cli.h", S+"cli.cc"], [("TokeniseLine/Get/GetPassword", S+"cli.cc")])
# ---------------------------------------------------------------- log
p("G01", "Log filtering emits a message exactly when its project's level admits it",
  "A message whose level is at or above the one set for the project of its source file - the command line before the configuration file, the project's own before that of all - is written exactly once and with its full text to the console unless that is off, to the project's log file and to the combined one (which exists unless just one project has a level); any other is written nowhere. "
  "Lines of one thread are in order everywhere, and by the end of the program everything logged has been written, asynchronously or not. Options which are not for logging are handed back, each once.",
  "inputs,configurations,schedules", "every level, project filter and interleaving", "tests log a few lines",
  [I+"log.h", S+"log.cc"], [("filter map, LogMessage, TestLogMessage, Logging", S+"log.cc")])
# ---------------------------------------------------------------- process/utils/files
p("F01", "File write then read returns the content; failures are reported, not thrown",
  "Reading a file after a successful write returns exactly the written bytes (any content, including empty), an overwrite replaces everything, and a failing read or write - missing file or directory, directory in place of file, full disk - reports failure instead of throwing or claiming success.",
  "inputs,histories,fault_sequences", "every content, overwrite history and failure", "tests write one file",
  [I+"utils.h", S+"utils.cc"], [("ReadFile/WriteFile", S+"utils.cc")])
p("F02", "Random strings have the requested length and alphabet, safely from threads",
  "Random strings and byte vectors have exactly the requested size, or a size within the requested inclusive range with both ends attainable; alphanumeric ones contain only letters and digits, and every one of them. The same seed gives the same sequence; concurrent calls each get a consecutive part of that sequence, and every part goes to one call only.",
  "inputs,schedules", "every size, range, seed and interleaving", "tests sample sizes",
  [I+"utils.h", S+"utils.cc"], [("GetRandomString, shared generator under mutex", I+"utils.h")])
p("F03", "Numbers, versions and times convert as documented at every boundary",
  "Version strings major.minor.patch (decimal digits; one for minor, three for patch, major up to 32767) convert to 10000*major + 1000*minor + patch and anything malformed to the invalid version; byte counts below 1000 or 1024 are shown as such, larger ones with two decimals in the smallest decimal or binary unit in which they round to less than one of the next unit. "
  "Timestamps count milliseconds since 2000-01-01 and convert to the date and time of that instant; the clock gives the nanoseconds since 1970-01-01 UTC and converts to and from whole seconds.",
  "inputs", "all values, in particular unit boundaries", "tests check samples",
  [I+"utils.h", S+"utils.cc", I+"clock.h"], [("VersionToInt, BytesTo*SiUnits, TimeStampToPtime", S+"utils.cc")])
p("F04", "A path option gives an existing path of the right kind, or nothing",
  "The path taken from the program options is the option's value exactly if that exists and is a directory or regular file as asked for, after creating it (a directory with its parents, a file only in an existing directory) if it is absent and creation was asked for; otherwise, or if the option is not given or empty, it is empty. Nothing is created unless asked for, and what exists is left as it is.",
  "histories,configurations", "every state of the files and combination of the flags", "there is no test", [I+"utils.h", S+"utils.cc"], [("GetPathFromProgramOptions", S+"utils.cc")])
p("R01", "The small random generator gives the documented sequence for every seed",
  "For every 32-bit seed the small generator yields exactly the sequence of Jenkins' small PRNG (three rotations 27, 17 and none, twenty warm-up steps, start value 0xf1ea5eed), and two generators never influence each other.",
  "inputs,histories", "every seed and length", "there is no test", [I+"utils.h"], [("small_prng::Initialise/RandomValue", I+"utils.h")])
p("P01", "The profiler reports every use of every place, with its times, in order",
  "At the end of the program every profiled place is reported once per section with the number of its uses, their total duration and the average (total divided by uses), sections ordered by name, then downwards by uses, average and total, whatever thread the uses were on. A place is its file with forward slashes (below the last directory named maidsafe, unless the path begins with that), line and function; places which differ are never merged.",
  "histories,schedules,inputs", "every multiset of uses and number of threads", "there is no test", [I+"profiler.h", S+"profiler.cc"], [("Profiler::AddEntry, ~Profiler", S+"profiler.cc")])
p("G02", "The path of the running program is set once and known from then on",
  "Before it is set, asking for the executable's path or directory throws uninitialised. The first setting fixes it: the absolute path the system gives for the running program whatever the argument says, or the absolute form of the argument if the system gives none; later settings and changes of the working directory change nothing.",
  "histories,fault_sequences", "every sequence of settings and queries, with and without the system's answer", "tests set it once", [I+"config.h", S+"config.cc"], [("SetThisExecutablePath/ThisExecutablePath", S+"config.cc")])
p("N02", "Addresses, endpoints, codes and texts convert without change",
  "Converting an IPv4 or IPv6 address (with scope) or UDP endpoint between the two networking libraries keeps address, scope and port, in both directions; converting an error code to the standard library keeps its value, in the generic category; converting text to bytes and back keeps every byte.",
  "inputs", "every address, port, code and text", "there is no test", [I+"convert.h"], [("ToBoost/ToAsio/ToStd/ToByteVector/ToString", I+"convert.h")])
p("N03", "Texts combine byte by byte, only when of equal size",
  "Combining two strings or byte vectors of equal size with ^ gives, at every position, the exclusive or of the two bytes, so that combining again with either gives the other; sizes which differ throw invalid_argument.",
  "inputs", "every pair of texts", "tests try samples", [I+"utils.h"], [("operator^", I+"utils.h")])
p("W01", "Process helpers report liveness and rebuild command lines faithfully",
  "A process is reported running exactly while the system knows it (from its start until it has been reaped), a process whose state cannot be asked for throws invalid_argument, and the process id is the caller's own, also after a fork. "
  "A constructed command line is the program in quotes (once), a space, and the non-empty arguments in order and unchanged with one space between. The path of another program is that of its name beside the running program, with the running program's extension.",
  "histories,inputs", "every argument list and process life cycle", "tests run one child",
  [I+"process.h", S+"process.cc"], [("IsRunning, ConstructCommandLine", S+"process.cc")])
# ---------------------------------------------------------------- serialisation
p("Z01", "Serialised values parse back equal; truncated input always throws",
  "Every supported value - numbers, strings, byte vectors, paths, vectors, maps, optionals, IP addresses (without scope), flyweights, classes with serialise or save/load functions - parses back equal from its serialised form, through memory and string streams alike, and the bytes are those of the fixed little-endian encoding; several values in one stream parse in order, each consuming exactly its own bytes. "
  "Every proper prefix of a serialised value makes parsing throw instead of yielding a value.",
  "inputs,fault_sequences", "all values and all truncation points", "tests round-trip samples",
  [I+"serialisation/serialisation.h", I+"serialisation/binary_archive.h", I+"serialisation/types/asio_and_boost_asio.h", I+"serialisation/types/boost_filesystem.h"], [("BinaryOutputArchive/BinaryInputArchive", I+"serialisation/binary_archive.h")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
