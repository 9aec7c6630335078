# Writes MANIFEST.json
import json
T="deterministic simulation with fault injection (seeded schedules, crashes and faults; {})"
how={
"C01":"linearizability of every key's history",
"C02":"process kills at any store or system call, then durable linearizability",
"C03":"repeated process kills incl. during creation, clear and recovery; every open must succeed and serve",
"C04":"refinement of an in-memory map",
"C05":"refinement of an insertion-ordered map",
"C06":"refinement of an indexed double-ended queue",
"C07":"linearizability of list and queue histories",
"C08":"process kills inside list and queue operations, durable linearizability",
"C09":"iteration against the history of every key",
"C10":"racing openers, crashes, stale locks; mutual exclusion as an invariant",
"C11":"injected EIO, ENOSPC, EINTR, short transfers; linearizability with failed operations optional",
"C12":"power failures with lossy page cache after flush; durability of protected keys",
"C13":"power failures with lossy page cache with flush aggregation; durability of acknowledged keys",
"C14":"deadlock, livelock and panic detection over all public operations",
"C15":"statistics against the live contents at quiescent points",
"C16":"disk usage bound and stray files at quiescent points and after reopening",
"C17":"oversized and boundary-size operations, refinement of the models",
"C18":"mixed interfaces over adversarial keys, refinement of the models",
"C19":"colliding hashes, refinement of the models",
"C20":"big values against a reference map",
"C21":"merges in any state under crashes, faults and concurrency",
"C22":"clear under crashes and concurrency, all-or-nothing",
"C23":"damaged shard headers and short reads at open",
"C24":"descriptors, mappings, deleted files and threads in use at idle moments and after closing",
"C25":"I/O calls that get stuck for a very long time; nobody but operations on the same shard (row, for compactions) may be waiting then",
"C26":"I/O calls counted per operation by the simulated kernel",
"C27":"counters against the simulated kernel's and the history's own",
}
note="Seeded search, not exhaustive: the property held in every simulated run (the evidence says how many and what they reached). The whole crate runs; below it a simulated kernel (scheduler, clock, randomness, files, mmap, flock, futex). Assumes sequentially consistent memory, that a process kill keeps all stores and writes done so far, and that a power failure keeps what was synced plus an arbitrary subset of later dirty pages and a prefix of later directory operations."
checks=[]
for p in sorted(how):
    checks.append(dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",evidence_file=f"evidence/{p}.json",technique=T.format(how[p]),level="exploration",level_note=note))
json.dump(dict(version=1,setup_cmd="./check.sh build",checks=checks,not_applicable=[],notes="No hooks in /repo: every seam is below the crate (compiler instrumentation of memory accesses, libc interposition, a replacement parking_lot)."),open('/verif/MANIFEST.json','w'),indent=1)
