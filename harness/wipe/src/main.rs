//! Drops secrets in many places and looks at the memory they occupied.
//! Reply per scenario: name<TAB>trials<TAB>secret length<TAB>positions that kept the secret byte in every trial
use bip39::util::securemem;
use bip39::{dictionary, Entropy, MnemonicString, Mnemonics, Seed, Type};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::hint::black_box;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// freed blocks covering the watched address are copied before they are released
struct A;
#[global_allocator]
static ALLOC: A = A;
static W_PTR: AtomicUsize = AtomicUsize::new(0);
static W_LEN: AtomicUsize = AtomicUsize::new(0);
static mut SNAP: [u8; 256] = [0; 256];
static SNAPPED: AtomicUsize = AtomicUsize::new(0);
unsafe fn snap() {
  let (p, n) = (W_PTR.load(SeqCst), W_LEN.load(SeqCst).min(256));
  for i in 0..n {
    *(&raw mut SNAP as *mut u8).add(i) = std::ptr::read_volatile((p + i) as *const u8);
  }
  SNAPPED.fetch_add(1, SeqCst);
}
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    let w = W_PTR.load(SeqCst);
    if w != 0 && w >= p as usize && w < p as usize + l.size() && SNAPPED.load(SeqCst) == 0 {
      snap();
    }
    System.dealloc(p, l)
  }
}
#[inline(never)]
fn watch(b: &[u8]) {
  SNAPPED.store(0, SeqCst);
  W_LEN.store(b.len(), SeqCst);
  W_PTR.store(b.as_ptr() as usize, SeqCst);
}
#[inline(never)]
fn seen() -> Vec<u8> {
  unsafe {
    let n = W_LEN.load(SeqCst).min(256);
    if SNAPPED.load(SeqCst) == 0 {
      // not on the heap: the memory (stack, static) is still there
      snap();
    }
    W_PTR.store(0, SeqCst);
    std::slice::from_raw_parts(&raw const SNAP as *const u8, n).to_vec()
  }
}

struct Rng(u64);
impl Rng {
  fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ z >> 30).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ z >> 27).wrapping_mul(0x94D049BB133111EB);
    z ^ z >> 31
  }
  /// no zero bytes
  fn secret(&mut self, n: usize) -> Vec<u8> {
    (0..n).map(|_| (self.next() % 255) as u8 + 1).collect()
  }
  /// secrets a wiping that looks at the contents might treat differently
  fn shaped(&mut self, shape: usize, n: usize) -> Vec<u8> {
    let mut s = self.secret(n);
    match shape {
      1 => s[0] = 0,
      2 => s[n - 1] = 0,
      3 => s[..8].iter_mut().for_each(|x| *x = 0),
      4 => s[n - 8..].iter_mut().for_each(|x| *x = 0),
      5 => s[..n / 2].iter_mut().for_each(|x| *x = 0),
      6 => s[n / 2..].iter_mut().for_each(|x| *x = 0),
      7 => s.iter_mut().for_each(|x| if *x & 1 == 0 { *x = 0 }),
      8 => s.iter_mut().for_each(|x| *x = 0x20 + *x % 95),
      9 => s.iter_mut().for_each(|x| *x |= 0x80),
      10 => { let a = s[0]; s.iter_mut().for_each(|x| *x = a) }
      11 => { let i = self.next() as usize % (n / 8); s[8 * i..8 * i + 8].iter_mut().for_each(|x| *x = 0) }
      12 => { s[0] = 1; s[n - 1] = 1 }
      13 => { s[0] = 0xff; s[n - 1] = 0xff }
      14 => { let i = self.next() as usize % n; let a = s[i]; s.iter_mut().for_each(|x| *x = 0); s[i] = a }
      _ => ()
    }
    s
  }
}
trait Secret: Sized + 'static {
  fn make(kind: usize, b: &[u8]) -> Self;
  fn bytes(&self) -> &[u8];
}
impl Secret for Seed {
  fn make(kind: usize, b: &[u8]) -> Self {
    match kind % 3 {
      0 => Seed::from_slice(b).unwrap(),
      1 => {
        let mut a = [0u8; 64];
        a.copy_from_slice(b);
        Seed::from_bytes(a)
      }
      _ => {
        let m = Entropy::from_slice(&b[..16]).unwrap().to_mnemonics().to_string(&dictionary::ENGLISH);
        let m = MnemonicString::new(&dictionary::ENGLISH, m.to_string()).unwrap();
        Seed::from_mnemonic_string(&m, &b[16..])
      }
    }
  }
  fn bytes(&self) -> &[u8] {
    self.as_ref()
  }
}
impl Secret for Entropy {
  fn make(kind: usize, b: &[u8]) -> Self {
    match kind % 3 {
      0 => Entropy::from_slice(b).unwrap(),
      1 => {
        let t = Type::from_entropy_size(b.len() * 8).unwrap();
        Entropy::generate(t, |o| o.copy_from_slice(b))
      }
      _ => {
        let m: Mnemonics = Entropy::from_slice(b).unwrap().to_mnemonics();
        Entropy::from_mnemonics(&m).unwrap()
      }
    }
  }
  fn bytes(&self) -> &[u8] {
    self.as_ref()
  }
}
struct Deep<T> {
  _a: [u32; 3],
  v: Option<T>,
  _b: u8
}
thread_local!(static TL: RefCell<Option<Box<dyn std::any::Any>>> = RefCell::new(None));

/// every way to hold and drop one secret; returns the secret and the memory afterwards
macro_rules! holders { ($($name:ident: $f:expr;)*) => {
  fn holders<T: Secret>() -> Vec<(&'static str, fn(usize, &[u8]) -> (Vec<u8>, Vec<u8>))> {
    $(#[inline(never)] fn $name<T: Secret>(k: usize, b: &[u8]) -> (Vec<u8>, Vec<u8>) {
      let mut secret = vec![];
      let f: fn(usize, &[u8], &mut Vec<u8>) = $f;
      f(k, b, &mut secret);
      let s = seen();
      (secret, s)
    })*
    vec![$((stringify!($name), $name::<T>)),*]
  }
}}
fn note<T: Secret>(v: &T, s: &mut Vec<u8>) {
  s.extend_from_slice(v.bytes());
  watch(v.bytes());
}
holders! {
  boxed: |k, b, s| { let v = Box::new(T::make(k, b)); note(&*v, s); drop(v); };
  boxed_opaque: |k, b, s| { let v = black_box(Box::new(T::make(k, b))); note(&*v, s); drop(black_box(v)); };
  vec_first: |k, b, s| { let v = vec![T::make(k, b), T::make(k + 1, b)]; note(&v[0], s); drop(v); };
  vec_last: |k, b, s| { let v = vec![T::make(k + 1, b), T::make(k, b)]; note(&v[1], s); drop(v); };
  vec_pop: |k, b, s| { let mut v = vec![T::make(k + 1, b), T::make(k, b)]; note(&v[0], s); v.truncate(0); snap_now(); drop(v); };
  vec_clear: |k, b, s| { let mut v = Vec::with_capacity(4); v.push(T::make(k, b)); note(&v[0], s); v.clear(); snap_now(); black_box(&v); };
  rc: |k, b, s| { let v = std::rc::Rc::new(T::make(k, b)); let w = v.clone(); note(&*v, s); drop(v); drop(w); };
  arc: |k, b, s| { let v = std::sync::Arc::new(T::make(k, b)); note(&*v, s); drop(v); };
  option_take: |k, b, s| { let mut v = Box::new(Some(T::make(k, b))); note(v.as_ref().as_ref().unwrap(), s); *v = None; snap_now(); black_box(&v); };
  in_struct: |k, b, s| { let v = Box::new(Deep { _a: [1, 2, 3], v: Some(T::make(k, b)), _b: 9 }); note(v.v.as_ref().unwrap(), s); drop(v); };
  overwritten: |k, b, s| { let mut v = Box::new(T::make(k, b)); note(&*v, s); let c: Vec<u8> = b.iter().map(|x| !x).collect(); *v = T::make(0, &c); black_box(&v); snap_now(); drop(v); };
  in_place: |k, b, s| { let mut v = Box::new(std::mem::ManuallyDrop::new(T::make(k, b))); note(&**v, s); unsafe { std::mem::ManuallyDrop::drop(&mut v) }; snap_now(); };
  dynamic: |k, b, s| { let t = T::make(k, b); let v: Box<dyn std::any::Any> = Box::new(t); note(v.downcast_ref::<T>().unwrap(), s); drop(v); };
  stack: |k, b, s| { let v = T::make(k, b); note(&v, s); };
  stack_opaque: |k, b, s| { let mut v = T::make(k, b); note(&v, s); black_box(&mut v); };
  stack_loop: |k, b, s| { for i in 0..2 { let v = T::make(k + i, b); s.clear(); note(&v, s); } };
  stack_early: |k, b, s| { let v = T::make(k, b); note(&v, s); if black_box(true) { return; } black_box(&v); };
  unwinding: |k, b, s| {
    if cfg!(panic = "abort") { let v = Box::new(T::make(k, b)); note(&*v, s); return; }
    let s2 = std::panic::AssertUnwindSafe(s);
    let _ = std::panic::catch_unwind(move || { let s2 = s2; let v = T::make(k, b); let Wrap(s3) = Wrap(s2); note(&v, s3.0); if black_box(true) { panic!("x") } black_box(&v); });
  };
  other_thread: |k, b, s| {
    let b2 = b.to_vec();
    let v = Box::new(T::make(k, &b2));
    note(&*v, s);
    let p = Box::into_raw(v) as usize;
    std::thread::spawn(move || drop(unsafe { Box::from_raw(p as *mut T) })).join().unwrap();
  };
  thread_local: |k, b, s| {
    let t: Box<dyn std::any::Any> = Box::new(T::make(k, b));
    note(t.downcast_ref::<T>().unwrap(), s);
    TL.with(|x| *x.borrow_mut() = Some(t));
    TL.with(|x| *x.borrow_mut() = None);
  };
}
struct Wrap<X>(X);
#[inline(never)]
fn snap_now() {
  unsafe {
    if SNAPPED.load(SeqCst) == 0 {
      snap()
    }
  }
}
const TRIALS: usize = 6;
fn report(name: &str, len: usize, trials: Vec<(Vec<u8>, Vec<u8>)>) {
  let kept: Vec<String> = (0..len)
    .filter(|i| {
      // a zero byte tells nothing, and a constant may lie there by chance
      let t: Vec<(u8, u8)> = trials.iter().filter(|(s, m)| s.len() == len && m.len() == len && s[*i] != 0).map(|(s, m)| (s[*i], m[*i])).collect();
      t.len() >= 5 && t.iter().all(|x| x.0 == x.1) && t.iter().any(|x| x.0 != t[0].0)
    })
    .map(|i| i.to_string())
    .collect();
  let odd = trials.iter().filter(|(s, m)| s.len() != len || m.len() != len).count();
  println!("{}\t{}\t{}\t{}\t{}", name, trials.len(), len, odd, if kept.is_empty() { "-".into() } else { kept.join(",") });
}
fn scenarios<T: Secret>(tag: &str, n: usize, rng: &mut Rng) {
  for (h, f) in holders::<T>() {
    for k in 0..3 {
      let t = (0..TRIALS).map(|_| f(k, &rng.secret(n))).collect();
      report(&format!("{} {} made by {}", tag, h, k), n, t);
    }
    for shape in 1..=14 {
      let k = (rng.next() % 2) as usize;
      let r = match shape { 7 => 16, 11 => 12, 14 => if n > 16 { 0 } else { 10 * n }, _ => TRIALS };
      let t: Vec<_> = (0..r).map(|_| f(k, &rng.shaped(shape, n))).collect();
      if r > 0 {
        report(&format!("{} {} of shape {}", tag, h, shape), n, t);
      }
    }
  }
}
/// securemem::zero on a part of a buffer: every byte of the part, nothing else
fn zeroing(rng: &mut Rng, rounds: usize) {
  let mut bad = vec![];
  let mut n = 0;
  let mut one = |total: usize, from: usize, len: usize, rng: &mut Rng| {
    let mut b = rng.secret(total);
    if len > 8 && (from + len) % 3 > 0 {
      let shape = rng.next() as usize % 15;
      let c = rng.shaped(shape, len);
      b[from..from + len].copy_from_slice(&c);
    }
    let c = b.clone();
    securemem::zero(&mut b[from..from + len]);
    n += 1;
    for i in 0..total {
      let inside = i >= from && i < from + len;
      if (inside && b[i] != 0) || (!inside && b[i] != c[i]) {
        bad.push(format!("{}:{}:{}:{}", total, from, len, i));
        break;
      }
    }
  };
  for len in 0..300 {
    for from in [0, 1, 2, 3, 5, 7, 8, 9, 15, 16] {
      one(len + from + 20, from, len, rng);
    }
  }
  for len in [511usize, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20] {
    one(len + 9, 3, len, rng);
  }
  for _ in 0..rounds {
    let l = (rng.next() % 5000) as usize;
    let f = (rng.next() % 40) as usize;
    one(l + f + 10, f, l, rng);
  }
  println!("zero\t{}\t{}", n, if bad.is_empty() { "-".into() } else { bad[..bad.len().min(10)].join(",") });
  // the buffer is never read again by the program
  for len in [1usize, 7, 12, 16, 32, 64, 200] {
    let t = (0..TRIALS)
      .map(|_| {
        let s = rng.secret(len);
        let mut b = s.clone().into_boxed_slice();
        watch(&b);
        securemem::zero(&mut b);
        drop(b);
        (s, seen())
      })
      .collect();
    report(&format!("zeroed buffer of {} then freed", len), len, t);
    let t = (0..TRIALS)
      .map(|_| {
        let s = rng.secret(len);
        dead_stack(&s);
        (s, seen())
      })
      .collect();
    report(&format!("zeroed stack buffer of {}", len), len, t);
  }
}
#[inline(never)]
fn dead_stack(s: &[u8]) {
  let mut a = [0u8; 256];
  a[..s.len()].copy_from_slice(s);
  watch(&a[..s.len()]);
  securemem::zero(&mut a[..s.len()]);
}
fn main() {
  let a: Vec<String> = std::env::args().collect();
  let mut rng = Rng(a[1].parse().unwrap());
  let rounds: usize = a[2].parse().unwrap();
  std::panic::set_hook(Box::new(|_| {}));
  // the monitor must notice a secret that is not wiped
  let t = (0..TRIALS)
    .map(|_| {
      let s = rng.secret(64);
      let b = s.clone();
      watch(&b);
      drop(b);
      (s, seen())
    })
    .collect();
  report("control", 64, t);
  for _ in 0..rounds {
    scenarios::<Seed>("seed", 64, &mut rng);
    for n in [12, 16, 20, 24, 28, 32] {
      scenarios::<Entropy>(&format!("entropy{}", n), n, &mut rng);
    }
    zeroing(&mut rng, 200);
  }
  println!("done");
}
