TECH = {
    "lru": "TLA+ spec model-checked with TLC; every transition of its state graph replayed into the code; recorded histories validated by TLC",
}
TECH["sdv"] = TECH["lru"]
CONC = "TLA+ spec model-checked with TLC; the real code runs under a controlled scheduler and TLC accepts or rejects the event trace of every schedule"
TECH["threads"] = CONC
TECH["databuf"] = CONC + "; the files on disk are part of the observed state"
TECH["tcp"] = CONC + "; bytes on the wire are part of the observed state"
TECH["pure"] = "executable TLA+ definition enumerated by TLC over its own environment and replayed into the code; recorded calls and histories on random inputs accepted or rejected by TLC"
NOTES = {
    "pure": "The specification defines every answer; its own environment (all enumerators, boundary sizes, small alphabets, short histories of small values) is enumerated by TLC and executed on the code, larger random inputs and histories are recorded from the code and decided by TLC. Not exhaustive over all inputs. Trusts TLC and the driver.",
    "tcp": "Model exhaustive for small clients; code explored by randomised scheduling of generated programs (1-4 threads) over real loopback sockets, with fragmenting relays, raw peers (bad frames, partial frames, resets) and failing accepts. Observations at rest rely on the kernel's loopback delivering within 3 s. Sequentially consistent memory only. Trusts TLC, the scheduler, the driver and the kernel.",
    "L01": "Exhaustive over all histories of up to 4 keys and capacities 1-3 (spec states), each spec transition executed on the real cache; longer random histories with up to 30 keys decided by TLC. Trusts TLC, the driver, the projection (result, size, membership of every key).",
    "L02": "As L01 with virtual time (interposed monotonic clock) and TTLs of 1-2 ticks exhaustively, more in recorded histories.",
    "sdv": "Exhaustive over all histories of put/delete/clear/merge/swap/parse on up to 4 (thorough: 5) versions, with the index assignments and limits listed in the evidence; each spec transition executed on the real object; random histories over 12 versions decided by TLC. Version names with index 0 are only used as parentless roots. Trusts TLC, the driver's projection (tips, branches, top parents, limits).",
    "threads": "Model exhaustive for small clients; code explored by randomised scheduling (random walk, PCT, preemption at basic blocks, spurious wakeups) of thousands of generated client programs per run, not exhaustively. Deadlock, livelock and crashes are events no behaviour of the specification has. Sequentially consistent memory only. Trusts TLC, the scheduler and the driver.",
    "databuf": "Model exhaustive for 2-3 client threads and up to 6 values under each pair of limits in the evidence; code explored by randomised scheduling of generated programs (1-3 threads, up to 6 calls each, small and oversize values, with and without callback, changing limits, destruction while busy). Environment: one storing thread per key; values which fit the memory limit fit all limits used. Sequentially consistent memory only. Trusts TLC, the scheduler and the driver.",
}
NOTES["A05"] = NOTES["threads"].replace("Sequentially consistent memory only.", "The controlled scheduler is sequentially consistent; memory orders are decided by a second driver, whose threads run freely under ThreadSanitizer.")
NA = {}
