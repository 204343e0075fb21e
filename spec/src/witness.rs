//! Positive and negative examples for the effect scan: every `w_*` has to be reported with the named kind, no `ok_*` may be.
#![allow(dead_code, static_mut_refs, unused_unsafe, clippy::all)]
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{LazyLock, Mutex, OnceLock};

static mut COUNTER: u64 = 0;
static ATOM: AtomicUsize = AtomicUsize::new(0);
static LOCK: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static ONCE: OnceLock<Vec<u8>> = OnceLock::new();
static LAZY: LazyLock<[u32; 4]> = LazyLock::new(|| [1, 2, 3, 4]);
static TABLE: [u64; 4] = [1, 2, 3, 4];
thread_local! { static TL: Cell<u64> = Cell::new(0); }
thread_local! { static SCRATCH: RefCell<Vec<u64>> = RefCell::new(Vec::new()); }

pub fn w_unsafe_block(x: &[u64], i: usize) -> u64 { unsafe { *x.get_unchecked(i) } }
pub unsafe fn w_unsafe_fn(x: *const u64) -> u64 { *x }
pub fn w_unsafe_transmute(x: [u8; 8]) -> u64 { unsafe { std::mem::transmute(x) } }
pub fn w_unsafe_static(x: u64) -> u64 { unsafe { COUNTER += x; COUNTER } }
pub fn w_unsafe_closure(x: &[u64]) -> u64 { (0..x.len()).map(|i| unsafe { *x.as_ptr().add(i) }).sum() }
pub fn w_unsafe_len(mut v: Vec<u8>) -> Vec<u8> { unsafe { v.set_len(3) }; v }
pub fn w_effect_static_mut(x: u64) -> u64 { unsafe { COUNTER += x; COUNTER } }
pub fn w_flow_capacity(x: Vec<u8>) -> usize { x.capacity() }
pub fn w_effect_atomic(x: usize) -> usize { ATOM.fetch_add(x, Ordering::Relaxed) }
pub fn w_effect_mutex(x: u8) -> usize { let mut g = LOCK.lock().unwrap(); g.push(x); g.len() }
pub fn w_effect_once(x: Vec<u8>) -> Vec<u8> { ONCE.get_or_init(|| x.clone()).clone() }
pub fn w_effect_once_set(x: Vec<u8>) -> usize { let _ = ONCE.set(x); 0 }
pub fn w_effect_tls(x: u64) -> u64 { TL.with(|c| { c.set(c.get() + x); c.get() }) }
pub fn w_effect_scratch(x: u64) -> usize { SCRATCH.with(|c| { c.borrow_mut().push(x); c.borrow().len() }) }
pub fn w_effect_local_static(x: usize) -> usize { static N: AtomicUsize = AtomicUsize::new(0); N.fetch_add(x, Ordering::SeqCst) }
pub fn w_effect_time() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }
pub fn w_effect_instant() -> bool { let t = std::time::Instant::now(); t.elapsed().as_nanos() % 2 == 0 }
pub fn w_effect_env() -> bool { std::env::var("LYRA2_DEBUG").is_ok() }
pub fn w_effect_print(x: u64) -> u64 { println!("{x}"); x }
pub fn w_effect_file() -> bool { std::fs::read("/tmp/x").is_ok() }
pub fn w_effect_exists() -> bool { std::path::Path::new("/tmp/x").exists() }
pub fn w_effect_stdin() -> usize { use std::io::Read; let mut v = vec![]; std::io::stdin().read_to_end(&mut v).unwrap_or(0) }
pub fn w_effect_stderr(x: u8) { use std::io::Write; let _ = std::io::stderr().write_all(&[x]); }
pub fn w_effect_dyn(x: u8, w: bool) { use std::io::Write; let mut v: Box<dyn Write> = if w { Box::new(std::io::stdout()) } else { Box::new(Vec::new()) }; let _ = v.write_all(&[x]); }
pub fn w_effect_addr(x: &[u8]) -> usize { x.as_ptr() as usize % 8 }
pub fn w_effect_addr_eq(x: &[u8], y: &[u8]) -> bool { x.as_ptr() == y.as_ptr() }
pub fn w_effect_ptr_eq(x: &[u8], y: &[u8]) -> bool { std::ptr::eq(x, y) }
pub fn w_effect_fmt_ptr(x: &u8) -> String { format!("{:p}", x) }
pub fn w_effect_hashmap(x: u64) -> u64 { let mut m = std::collections::HashMap::new(); m.insert(x, 1u64); m.insert(x + 1, 2); for (k, _) in &m { return *k; } 0 }
pub fn w_effect_random() -> u64 { use std::hash::{BuildHasher, Hasher}; std::collections::hash_map::RandomState::new().build_hasher().finish() }
pub fn w_effect_thread() -> String { format!("{:?}", std::thread::current().id()) }
pub fn w_effect_cores() -> usize { std::thread::available_parallelism().map_or(1, |n| n.get()) }
#[track_caller]
pub fn w_effect_caller() -> u32 { std::panic::Location::caller().line() }
pub fn w_effect_closure(x: &[usize]) -> Vec<usize> { x.iter().map(|v| ATOM.fetch_xor(*v, Ordering::Relaxed)).collect() }

pub fn ok_table(i: usize) -> u64 { TABLE[i % 4] }
pub fn ok_lazy(i: usize) -> u32 { LAZY[i % 4] }
pub fn ok_once() -> usize { static C: OnceLock<Vec<u64>> = OnceLock::new(); C.get_or_init(|| vec![1, 2, 3]).len() }
pub fn ok_vec(x: &[u8]) -> Vec<u8> { let mut v = vec![1u8, 2, 3]; v.extend_from_slice(x); v.iter().map(|b| b ^ 1).collect() }
pub fn ok_panic(x: u64) -> u64 { if x < 1 { panic!("bad {}", x) } assert!(x < 100, "x {x}"); x }
pub fn ok_format(x: u64) -> String { format!("{:02x}", x) }
pub fn ok_chunks(x: &[u8]) -> Vec<u64> { x.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect() }
pub fn ok_cell(x: u64) -> u64 { let c = Cell::new(x); c.set(c.get() + 1); c.get() }
pub fn ok_map(x: u64) -> Option<u64> { let mut m = std::collections::BTreeMap::new(); m.insert(x, 1u64); m.into_iter().next().map(|p| p.0) }
pub fn ok_write(x: u64) -> Vec<u8> { use std::io::Write; let mut v = vec![]; v.write_all(&x.to_le_bytes()).unwrap(); v }
pub fn ok_read(mut x: &[u8]) -> [u8; 4] { use std::io::Read; let mut b = [0; 4]; x.read_exact(&mut b).unwrap(); b }
pub fn ok_cursor(x: u64) -> Vec<u8> { use std::io::Write; let mut c = std::io::Cursor::new(Vec::new()); c.write_all(&x.to_le_bytes()).unwrap(); c.into_inner() }
pub fn ok_fmt(x: u64) -> String { use std::fmt::Write; let mut s = String::new(); write!(s, "{:02x}", x).unwrap(); s }
pub fn ok_hashmap(x: u64) -> u64 { let mut m = std::collections::HashMap::new(); m.insert(x, 1u64); *m.get(&x).unwrap_or(&0) }
