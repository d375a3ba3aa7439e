//! The interface to the symbolic executor.
//!
//! When symbolically executed, these are intrinsics; when replayed, they are given by `replay.rs`.

#[allow(improper_ctypes)]
mod raw {
    extern "C" {
        pub fn sym_byte(tape: u32, position: u64) -> u8;
        pub fn sym_var(bits: u32, low: u64, high: u64) -> u64;
        pub fn sym_assume(condition: bool);
        pub fn sym_check(condition: bool, id: u32);
        pub fn sym_bound(id: u32);
        pub fn sym_idle(limit: u64);
        pub fn sym_memory(limit: u64);
        pub fn sym_reach(id: u32);
        pub fn sym_trace(value: u64);
        pub fn sym_phase(phase: u32);
        pub fn sym_extent(one: u32, other: u32, id: u32);
        pub fn sym_fix(value: u64) -> u64;
        pub fn sym_plain(value: u64) -> u64;
        pub fn sym_param(index: u32) -> u64;
    }
}

/// The content of a tape at a position.
#[inline(always)]
pub fn byte(tape: u32, position: u64) -> u8 {
    unsafe { raw::sym_byte(tape, position) }
}

/// An arbitrary number of a number of bits in an inclusive range.
#[inline(always)]
pub fn var(bits: u32, low: u64, high: u64) -> u64 {
    unsafe { raw::sym_var(bits, low, high) }
}

/// Continue only if the condition holds.
#[inline(always)]
pub fn assume(condition: bool) {
    unsafe { raw::sym_assume(condition) }
}

/// The property.
#[inline(always)]
#[track_caller]
pub fn check(condition: bool) {
    check_at(condition, std::panic::Location::caller().line())
}

#[inline(always)]
pub fn check_at(condition: bool, id: u32) {
    unsafe { raw::sym_check(condition, id) }
}

/// The same number, with each of its values explored separately.
#[inline(always)]
pub fn fix(value: u64) -> u64 {
    unsafe { raw::sym_fix(value) }
}

/// The same number, simplified with what is known.
#[inline(always)]
pub fn plain(value: u64) -> u64 {
    unsafe { raw::sym_plain(value) }
}

/// Stop exploring this path, which is outside of the stated bounds.
#[inline(always)]
pub fn bound(id: u32) {
    unsafe { raw::sym_bound(id) }
}

/// Stop exploring this path, as with `bound`, after a number of instructions unless called again.
#[inline(always)]
pub fn idle(limit: u64) {
    unsafe { raw::sym_idle(limit) }
}

/// From now on, no more than so many bytes are requested from the allocator at once.
#[inline(always)]
pub fn memory(limit: u64) {
    unsafe { raw::sym_memory(limit) }
}

/// Some input is expected to reach this point.
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { raw::sym_reach(id) }
}

/// Record a value so that the executor can be compared with the real machine.
#[inline(always)]
pub fn trace(value: u64) {
    unsafe { raw::sym_trace(value) }
}

/// Start a phase.
#[inline(always)]
pub fn phase(phase: u32) {
    unsafe { raw::sym_phase(phase) }
}

/// The last byte touched in two phases is the same.
#[inline(always)]
#[track_caller]
pub fn extent(one: u32, other: u32) {
    unsafe { raw::sym_extent(one, other, std::panic::Location::caller().line()) }
}

/// A parameter of the run.
#[inline(always)]
pub fn param(index: u32) -> u64 {
    unsafe { raw::sym_param(index) }
}
