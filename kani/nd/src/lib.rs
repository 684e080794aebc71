//! Value source shared by every harness.
//!
//! Under Kani (`cfg(kani)`) every `any_*` call is a fresh unconstrained symbolic value and
//! `assume` is `kani::assume`.  In a native build the same harness text runs on concrete values:
//! either the bytes of a Kani counterexample (replay) or pseudo-random values (sampling).

#[cfg(kani)]
mod imp {
    macro_rules! any_fn { ($($n:ident : $t:ty),*) => { $( #[inline(always)] pub fn $n() -> $t { kani::any() } )* } }
    any_fn!(any_u8: u8, any_u16: u16, any_u32: u32, any_u64: u64, any_u128: u128, any_usize: usize,
            any_i8: i8, any_i16: i16, any_i32: i32, any_i64: i64, any_i128: i128, any_bool: bool);
    #[inline(always)]
    pub fn assume(b: bool) { kani::assume(b) }
    #[inline(always)]
    pub fn reached() { kani::cover!(true, "harness end reachable") }
    /// Size used by this harness: `small` under Kani and in replay, one of `large` when sampling.
    #[inline(always)]
    pub fn size(small: usize, _large: &[usize]) -> usize { small }
    pub fn size_q(small: usize, _large: &[usize]) -> usize { small }
    /// `true` when running with sampled concrete values.
    #[inline(always)]
    pub fn sampling() -> bool { false }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    pub struct Rejected;
    pub enum Src { Replay { vals: Vec<Vec<u8>>, pos: usize }, Sample { state: u64, log: Vec<Vec<u8>> } }
    thread_local! { static SRC: RefCell<Src> = const { RefCell::new(Src::Replay { vals: Vec::new(), pos: 0 }) }; }
    pub fn install(s: Src) { SRC.with(|c| *c.borrow_mut() = s) }
    pub fn taken() -> Vec<Vec<u8>> { SRC.with(|c| match &*c.borrow() { Src::Sample { log, .. } => log.clone(), Src::Replay { vals, .. } => vals.clone() }) }
    fn next64(s: &mut u64) -> u64 { *s = s.wrapping_add(0x9E3779B97F4A7C15); let mut z = *s; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn raw(n: usize) -> u128 {
        SRC.with(|c| match &mut *c.borrow_mut() {
            Src::Replay { vals, pos } => {
                let v = vals.get(*pos).cloned().unwrap_or_default(); *pos += 1;
                let mut b = [0u8; 16]; let k = v.len().min(16); b[..k].copy_from_slice(&v[..k]); u128::from_le_bytes(b)
            }
            Src::Sample { state, log } => {
                let bits = 8 * n as u32;
                let r = (next64(state) as u128) << 64 | next64(state) as u128;
                let m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                let sel = next64(state) % 8;
                let sh = (next64(state) % bits as u64) as u32;
                let v = match sel {
                    0 => (r >> 120) & 0xf,                                   // small
                    1 => (1u128 << sh).wrapping_add((r & 3).wrapping_sub(1)),  // near a power of two
                    2 => (0u128).wrapping_sub(r & 0xf),                       // near the top
                    3 => r & ((1u128 << sh).wrapping_sub(1)),                  // few low bits
                    4 => (r & 0xff) << sh,
                    _ => r,
                } & m;
                log.push(v.to_le_bytes()[..n].to_vec());
                v
            }
        })
    }
    macro_rules! any_fn { ($($n:ident : $t:ty),*) => { $( pub fn $n() -> $t { raw(std::mem::size_of::<$t>()) as $t } )* } }
    any_fn!(any_u8: u8, any_u16: u16, any_u32: u32, any_u64: u64, any_u128: u128, any_usize: usize,
            any_i8: i8, any_i16: i16, any_i32: i32, any_i64: i64, any_i128: i128);
    pub fn any_bool() -> bool { raw(1) & 1 == 1 }
    pub fn assume(b: bool) { if !b { std::panic::panic_any(Rejected) } }
    pub fn reached() {}
    pub fn sampling() -> bool { SRC.with(|c| matches!(&*c.borrow(), Src::Sample { .. })) }
    /// `size` for work that grows with the square.
    pub fn size_q(small: usize, large: &[usize]) -> usize {
        if !sampling() || large.is_empty() { return small }
        let sel = raw(1); if *large.iter().max().unwrap() >= 64 && sel == 77 { return 512 << (raw(1) & 1) }
        let i = raw(8) as usize % (large.len() + 1); if i == large.len() { small } else { large[i] }
    }
    /// One of the listed sizes; now and then, where the list reaches 64, a much larger one (up to 8192).
    pub fn size(small: usize, large: &[usize]) -> usize {
        if !sampling() || large.is_empty() { return small }
        let m = *large.iter().max().unwrap();
        if m >= 64 && raw(1) % 40 == 0 { let mut v = m << (1 + raw(1) % 6); while v > 8192 { v /= 2 } return v }
        let i = raw(8) as usize % (large.len() + 1); if i == large.len() { small } else { large[i] }
    }

    /// `replay <harness> <hex,hex,...>` or `sample <harness> <count> <seed>` or `list`.
    /// Exit: 0 held, 1 contract violated, 3 precondition rejected the values, 4 unknown harness.
    pub fn main_with(list: &[(&str, fn())]) -> ! {
        let a: Vec<String> = std::env::args().collect();
        let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("list");
        if cmd == "list" { for (n, _) in list { println!("{n}") } std::process::exit(0) }
        let name = a[2].as_str();
        let Some((_, f)) = list.iter().find(|(n, _)| *n == name) else { eprintln!("unknown harness {name}"); std::process::exit(4) };
        let f = *f;
        let quiet = cmd == "sample";
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| { if i.payload().downcast_ref::<Rejected>().is_none() && !quiet { prev(i) } }));
        if cmd == "replay" {
            let vals = a.get(3).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()).unwrap_or_default();
            install(Src::Replay { vals, pos: 0 });
            match std::panic::catch_unwind(f) {
                Ok(()) => { println!("HELD {name}"); std::process::exit(0) }
                Err(e) if e.downcast_ref::<Rejected>().is_some() => { println!("REJECTED {name}"); std::process::exit(3) }
                Err(_) => { println!("VIOLATED {name}"); std::process::exit(1) }
            }
        }
        let count: u64 = a[3].parse().unwrap();
        let seed: u64 = a[4].parse().unwrap();
        let secs: u64 = a.get(5).map(|s| s.parse().unwrap()).unwrap_or(20);
        let t0 = std::time::Instant::now();
        let (mut ran, mut rej) = (0u64, 0u64);
        let mut seen = std::collections::HashSet::new();
        let mut first: Option<String> = None;
        let mut i = 0u64;
        while ran < count && i < count.saturating_mul(400) && t0.elapsed().as_secs() < secs {
            install(Src::Sample { state: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (i.wrapping_mul(0xD1B54A32D192ED03)), log: Vec::new() });
            i += 1;
            match std::panic::catch_unwind(f) {
                Ok(()) => {
                    ran += 1;
                    let l = taken();
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new(); l.hash(&mut h); seen.insert(h.finish());
                    if first.is_none() { first = Some(l.iter().take(12).map(|v| v.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(",")) }
                }
                Err(e) if e.downcast_ref::<Rejected>().is_some() => rej += 1,
                Err(e) => {
                    let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    println!("VIOLATED {name} index={} seed={seed} message={}", i - 1, msg.replace('\n', " "));
                    println!("VALUES {}", taken().iter().map(|v| v.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(","));
                    std::process::exit(1)
                }
            }
        }
        println!("SAMPLED {name} ran={ran} rejected={rej} distinct={} first={}", seen.len(), first.unwrap_or_default());
        std::process::exit(0)
    }
}
pub use imp::*;

/// Declare harnesses: each is a Kani proof under `cfg(kani)` and an entry of `LIST` natively.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident () $body:block )*) => {
        $( $(#[cfg_attr(kani, $m)])* #[cfg_attr(kani, kani::proof)] pub fn $name() { $body; $crate::reached(); } )*
        pub const LIST: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
