//! Counters of what a run exercised ("probes"); summed over all runs for the evidence file.
pub const STALL: usize = 0;
pub const POWERLOSS: usize = 1;
pub const CRASH: usize = 2;
pub const SLEEPS: usize = 3;
pub const P_COMPACT: usize = 4;
pub const P_COMPACT_BEGIN: usize = 5;
pub const P_SPLIT: usize = 6;
pub const P_MERGE: usize = 7;
pub const P_RESUME: usize = 8;
pub const P_REOPEN: usize = 9;
pub const P_CRASH_IN_OPEN: usize = 10;
pub const P_OPS: usize = 11;
pub const P_OPS_PENDING: usize = 12;
pub const P_OPS_ERR: usize = 13;
pub const P_OVERLAP: usize = 14;
pub const P_AUDITS: usize = 15;
pub const P_CRASH_IN_COMPACT: usize = 16;
pub const P_LOCK_WAIT: usize = 17;
pub const P_CLEAR: usize = 18;
pub const P_ITER_SPLIT: usize = 19;
pub const P_REFUSED_OPEN: usize = 20;
pub const P_REJECTED: usize = 21;
pub const P_PROTECTED: usize = 22;
pub const P_STATES: usize = 23;
pub const P_INCONCLUSIVE: usize = 24;
pub const P_TAINTED: usize = 26;
pub const P_ITER_MOVED: usize = 27;
pub const P_HELD: usize = 28;
pub const P_CLOSED: usize = 29;
pub const P_STUCK: usize = 30;
pub const P_HELD_UP: usize = 31;
pub const P_COST: usize = 25;
pub const P_COUNTED: usize = 42;
pub const P_LATE_OPEN: usize = 43;
pub const P_AGED: usize = 44;
pub const P_WALKED: usize = 45;
pub const IO_BASE: usize = 32;
pub const FAULT_BASE: usize = 48;
pub const N: usize = 64;
pub const NAMES: [&str; N] = [
    "slow_thread_stalls", "power_losses", "process_kills", "sleeps", "compactions_finished", "compactions_begun",
    "splits", "merges", "compactions_resumed_at_open", "reopens", "crashes_inside_open", "operations",
    "operations_in_flight_at_a_crash", "operations_that_returned_an_error", "operations_overlapping_another",
    "full_audits", "crashes_with_a_compaction_in_progress", "waits_for_a_lock", "clears", "iterations_across_a_split",
    "refused_opens", "rejected_operations", "durability_protected_reads", "checker_states", "checks_given_up", "operations_whose_calls_were_counted", "objects_set_aside", "iterations_with_concurrent_writes", "idle_stores_checked_for_held_resources", "closed_stores_checked_for_leftovers", "stuck_calls_with_all_others_waiting", "operations_rightly_waiting_for_a_stuck_call",
    "io_read", "io_write", "io_truncate", "io_open", "io_rename", "io_unlink", "io_sync", "io_mmap", "io_readdir",
    "io_stat", "looks_at_the_counters", "opens_while_being_closed", "files_continued_close_to_4GB", "operations_between_the_elements_of_an_iteration", "", "",
    "", "EIO", "ENOSPC", "short_transfer", "EINTR", "slow_disk", "", "stuck_call", "", "", "", "", "", "", "", "",
];
pub static mut C: [u64; N] = [0; N];
#[inline]
pub fn hit(i: usize) {
    unsafe { C[i] += 1 }
}
pub fn add(i: usize, n: u64) {
    unsafe { C[i] += n }
}
