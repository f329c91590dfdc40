//! Allocator that records blocks made inside API calls and checks how they are released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::Mutex;

pub struct Track;
#[global_allocator]
static A: Track = Track;

pub static ON: AtomicBool = AtomicBool::new(false);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
pub static EVENTS: AtomicU64 = AtomicU64::new(0);
static BAD: Mutex<[Option<(&'static str, usize, usize, usize, usize)>; 8]> = Mutex::new([None; 8]);

thread_local!(static IN_API: Cell<bool> = const { Cell::new(false) });
pub fn enter() -> bool {
  IN_API.with(|c| c.replace(true))
}
pub fn leave(prev: bool) {
  IN_API.with(|c| c.set(prev));
}
fn inside() -> bool {
  IN_API.try_with(|c| c.get()).unwrap_or(false)
}
pub fn take_bad() -> Vec<String> {
  let l: Vec<_> = {
    let mut b = BAD.lock().unwrap();
    let v = *b;
    *b = [None; 8];
    v.iter().flatten().cloned().collect()
  };
  l.into_iter().map(|(w, a, b, c, d)| format!("{} (allocated size {} align {}, released size {} align {})", w, a, b, c, d)).collect()
}
fn bad(w: &'static str, a: usize, b: usize, c: usize, d: usize) {
  let mut l = BAD.lock().unwrap();
  for s in l.iter_mut() {
    if s.is_none() {
      *s = Some((w, a, b, c, d));
      return;
    }
  }
}

/// open-addressing table of live blocks, storage straight from the system allocator
#[derive(Clone, Copy)]
struct Ent {
  p: usize,
  size: usize,
  align: usize,
  api: bool
}
struct Tab {
  v: *mut Ent,
  cap: usize,
  used: usize
}
unsafe impl Send for Tab {}
static TAB: Mutex<Tab> = Mutex::new(Tab { v: std::ptr::null_mut(), cap: 0, used: 0 });
const TOMB: usize = 1;
impl Tab {
  fn at(&self, i: usize) -> *mut Ent {
    unsafe { self.v.add(i & (self.cap - 1)) }
  }
  fn h(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20
  }
  fn put(&mut self, e: Ent) {
    if self.used * 2 >= self.cap {
      let n = if self.cap == 0 { 1 << 14 } else { self.cap * 2 };
      let old = (self.v, self.cap);
      unsafe {
        self.v = System.alloc_zeroed(Layout::array::<Ent>(n).unwrap()) as *mut Ent;
        self.cap = n;
        self.used = 0;
        for i in 0..old.1 {
          let x = *old.0.add(i);
          if x.p > TOMB {
            self.put(x)
          }
        }
        if old.1 > 0 {
          System.dealloc(old.0 as *mut u8, Layout::array::<Ent>(old.1).unwrap());
        }
      }
    }
    let mut i = Self::h(e.p);
    unsafe {
      while (*self.at(i)).p > TOMB {
        i += 1;
      }
      if (*self.at(i)).p == 0 {
        self.used += 1;
      }
      *self.at(i) = e;
    }
  }
  fn take(&mut self, p: usize) -> Option<Ent> {
    if self.cap == 0 {
      return None;
    }
    let mut i = Self::h(p);
    unsafe {
      loop {
        let e = *self.at(i);
        if e.p == 0 {
          return None;
        }
        if e.p == p {
          (*self.at(i)).p = TOMB;
          return Some(e);
        }
        i += 1;
      }
    }
  }
}
fn record(p: *mut u8, l: Layout) {
  let api = inside();
  TAB.lock().unwrap().put(Ent { p: p as usize, size: l.size(), align: l.align(), api });
  if api {
    BLOCKS.fetch_add(1, Relaxed);
    BYTES.fetch_add(l.size() as i64, Relaxed);
    EVENTS.fetch_add(1, Relaxed);
  }
}
/// false: the block must not be given to the system
fn unrecord(p: *mut u8, l: Layout) -> bool {
  let e = TAB.lock().unwrap().take(p as usize);
  match e {
    None => {
      if inside() {
        bad("release of memory that is not allocated", 0, 0, l.size(), l.align());
        return false;
      }
      true
    }
    Some(e) => {
      if (e.size, e.align) != (l.size(), l.align()) && (e.api || inside()) {
        bad("release with another layout than allocated", e.size, e.align, l.size(), l.align());
      }
      if inside() && !e.api {
        bad("release of memory the library did not allocate", e.size, e.align, l.size(), l.align());
      }
      if e.api {
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(e.size as i64, Relaxed);
        EVENTS.fetch_add(1, Relaxed);
        unsafe { std::ptr::write_bytes(p, 0xDD, e.size) };
        std::hint::black_box(p);
      }
      true
    }
  }
}
unsafe impl GlobalAlloc for Track {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let p = System.alloc(l);
    if ON.load(Relaxed) && !p.is_null() {
      if inside() {
        std::ptr::write_bytes(p, 0xCD, l.size());
      }
      record(p, l);
    }
    p
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    let p = System.alloc_zeroed(l);
    if ON.load(Relaxed) && !p.is_null() {
      record(p, l);
    }
    p
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    if ON.load(Relaxed) && !unrecord(p, l) {
      return;
    }
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    if !ON.load(Relaxed) {
      return System.realloc(p, l, n);
    }
    let nl = Layout::from_size_align_unchecked(n, l.align());
    let q = self.alloc(nl);
    if !q.is_null() {
      std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
      self.dealloc(p, l);
    }
    q
  }
}
