//! A replay of a model on the real machine: the intrinsics are backed by a file.
//!
//! The exit code is 0 if the harness finishes, 1 if the property is violated, and 3 if the input is
//! outside of what the harness assumes.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;
use std::process::exit;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Default)]
struct Replay {
    name: String,
    params: HashMap<u32, u64>,
    vars: Vec<u64>,
    next: usize,
    bytes: HashMap<(u32, u64), u8>,
    phase: usize,
    touched: [Option<u64>; 8],
    out: Vec<u8>,
}

/// The largest request for memory allowed.
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

struct Allocator;

#[global_allocator]
static ALLOCATOR: Allocator = Allocator;

fn request(size: usize) {
    let limit = LIMIT.load(Relaxed);
    if size as u64 > limit {
        LIMIT.store(u64::MAX, Relaxed);
        println!("FAILED check: a request for {size} bytes exceeds {limit}");
        finish(1);
    }
}

unsafe impl GlobalAlloc for Allocator {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        request(layout.size());
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        request(layout.size());
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        System.dealloc(pointer, layout)
    }

    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        request(size);
        System.realloc(pointer, layout, size)
    }
}

thread_local!(static REPLAY: RefCell<Replay> = RefCell::default());

fn with<T>(function: impl FnOnce(&mut Replay) -> T) -> T {
    REPLAY.with(|replay| function(&mut replay.borrow_mut()))
}

fn finish(code: i32) -> ! {
    let out = with(|replay| std::mem::take(&mut replay.out));
    let _ = std::io::stdout().write_all(&out);
    let _ = std::io::stdout().flush();
    exit(code)
}

#[no_mangle]
extern "C" fn sym_byte(tape: u32, position: u64) -> u8 {
    with(|replay| {
        let phase = replay.phase;
        let touched = &mut replay.touched[phase];
        *touched = Some(touched.map_or(position, |touched| touched.max(position)));
        replay.bytes.get(&(tape, position)).copied().unwrap_or(0)
    })
}

#[no_mangle]
extern "C" fn sym_var(_: u32, low: u64, high: u64) -> u64 {
    let value = with(|replay| {
        replay.next += 1;
        replay.vars.get(replay.next - 1).copied().unwrap_or(low)
    });
    if value < low || value > high {
        finish(3);
    }
    value
}

#[no_mangle]
extern "C" fn sym_plain(value: u64) -> u64 {
    value
}

#[no_mangle]
extern "C" fn sym_assume(condition: bool) {
    if !condition {
        finish(3);
    }
}

#[no_mangle]
extern "C" fn sym_check(condition: bool, id: u32) {
    if !condition {
        println!("FAILED check {id}");
        finish(1);
    }
}

#[no_mangle]
extern "C" fn sym_fix(value: u64) -> u64 {
    value
}

#[no_mangle]
extern "C" fn sym_bound(_: u32) {
    finish(3);
}

#[no_mangle]
extern "C" fn sym_memory(limit: u64) {
    LIMIT.store(limit, Relaxed);
}

#[no_mangle]
extern "C" fn sym_idle(_: u64) {}

#[no_mangle]
extern "C" fn sym_reach(_: u32) {}

#[no_mangle]
extern "C" fn sym_trace(value: u64) {
    with(|replay| writeln!(replay.out, "trace {value}").unwrap());
}

#[no_mangle]
extern "C" fn sym_phase(phase: u32) {
    with(|replay| replay.phase = phase as usize);
}

#[no_mangle]
extern "C" fn sym_extent(one: u32, other: u32, id: u32) {
    let (one, other) =
        with(|replay| (replay.touched[one as usize], replay.touched[other as usize]));
    if one != other {
        println!("FAILED extent {id}: {one:?} {other:?}");
        finish(1);
    }
}

#[no_mangle]
extern "C" fn sym_param(index: u32) -> u64 {
    with(|replay| replay.params.get(&index).copied().unwrap_or(0))
}

fn main() {
    let path = std::env::args().nth(1).expect("a file is expected");
    let content = std::fs::read_to_string(path).unwrap();
    let mut replay = Replay::default();
    for line in content.lines() {
        let fields: Vec<_> = line.split_whitespace().collect();
        match &fields[..] {
            ["harness", name] => replay.name = name.to_string(),
            ["param", index, value] => {
                replay.params.insert(index.parse().unwrap(), value.parse().unwrap());
            }
            ["var", value] => replay.vars.push(value.parse().unwrap()),
            ["byte", tape, position, value] => {
                replay.bytes.insert(
                    (tape.parse().unwrap(), position.parse().unwrap()),
                    value.parse().unwrap(),
                );
            }
            _ => {}
        }
    }
    let harness = harness::find(&replay.name).expect("an unknown harness");
    REPLAY.with(|value| *value.borrow_mut() = replay);
    std::panic::set_hook(Box::new(|information| {
        println!("FAILED {information}");
        finish(1);
    }));
    harness();
    finish(0);
}
