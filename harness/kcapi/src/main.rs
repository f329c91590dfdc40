//! Line-protocol driver over the C interface. Every call is wrapped in monitors: guard bytes
//! around results, never both result and error, inputs unchanged, accounting of the library's blocks.
//! Reply: O|E<TAB>fields...<TAB>residual blocks:bytes   or   V<TAB>what went wrong (hex)
mod conc;
mod ffi;
mod track;
use ffi::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::io::{BufRead, Write};
use std::os::raw::c_char;
use std::ptr::null;
use std::sync::atomic::Ordering::*;

pub fn hx(b: &[u8]) -> String {
  if b.is_empty() {
    return "-".into();
  }
  b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhx(s: &str) -> Vec<u8> {
  if s == "-" {
    return vec![];
  }
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("driver: hex")).collect()
}
/// a buffer argument: exact-size heap block, or null with a length
pub struct Buf {
  b: Option<Box<[u8]>>,
  copy: Vec<u8>,
  n: usize
}
impl Buf {
  pub fn new(s: &str) -> Self {
    if let Some(n) = s.strip_prefix("null:") {
      return Buf { b: None, copy: vec![], n: n.parse().unwrap() };
    }
    let v = unhx(s);
    Buf { n: v.len(), copy: v.clone(), b: Some(v.into_boxed_slice()) }
  }
  pub fn p(&self) -> *const u8 {
    self.b.as_ref().map(|b| b.as_ptr()).unwrap_or(null())
  }
  pub fn n(&self) -> usize {
    self.n
  }
  fn same(&self) -> bool {
    self.b.as_ref().map(|b| b[..] == self.copy[..]).unwrap_or(true)
  }
}
/// a string argument: exact-size heap block with terminator (any bytes)
pub fn cs(s: &str) -> CString {
  let mut v = unhx(s);
  if let Some(p) = v.iter().position(|x| *x == 0) {
    v.truncate(p);
  }
  CString::new(v).unwrap()
}
const G: u8 = 0xA5;
#[repr(C)]
pub struct Out<T> {
  pre: [u8; 32],
  pub v: std::mem::MaybeUninit<T>,
  post: [u8; 32]
}
impl<T: Copy> Out<T> {
  pub fn new() -> Self {
    unsafe {
      let mut o: Self = std::mem::zeroed();
      std::ptr::write_bytes(&mut o as *mut Self as *mut u8, G, std::mem::size_of::<Self>());
      o
    }
  }
  pub fn p(&mut self) -> *mut T {
    self.v.as_mut_ptr()
  }
  fn bytes(&self) -> &[u8] {
    unsafe { std::slice::from_raw_parts(self.v.as_ptr() as *const u8, std::mem::size_of::<T>()) }
  }
  fn guards(&self) -> bool {
    self.pre.iter().chain(self.post.iter()).all(|x| *x == G)
  }
  fn untouched(&self) -> bool {
    self.bytes().iter().all(|x| *x == G)
  }
  pub fn get(&self) -> T {
    unsafe { self.v.assume_init() }
  }
}
pub enum Res<T> {
  Ok(T),
  Err(Err),
  Bad(String)
}
/// one monitored call
pub fn call<T: Copy>(f: impl FnOnce(*mut T, *mut Err) -> bool) -> Res<T> {
  let mut out = Box::new(Out::<T>::new());
  let mut err = Box::new(Out::<Err>::new());
  let (op, ep) = (out.p(), err.p());
  let prev = track::enter();
  let r = f(op, ep);
  track::leave(prev);
  if !out.guards() || !err.guards() {
    return Res::Bad("memory next to a result was overwritten".into());
  }
  if r {
    if !err.untouched() {
      return Res::Bad("returns true and also writes the error".into());
    }
    Res::Ok(out.get())
  } else {
    if !out.untouched() {
      return Res::Bad("returns false and also writes the result".into());
    }
    let e = err.get();
    if err.bytes()[..4].iter().all(|x| *x == G) || e.msg.is_null() || e.msg as usize == 0xA5A5_A5A5_A5A5_A5A5 {
      return Res::Bad("returns false without an error".into());
    }
    if e.code < -1 || e.code > 11 {
      return Res::Bad(format!("unknown error code {}", e.code));
    }
    Res::Err(e)
  }
}
#[derive(Clone, Copy)]
enum Obj {
  Mgr(H),
  Kc(H),
  Data(Data),
  Str(S),
  Nets(Nets),
  Backup(Backup),
  Info(Info),
  Error(Err)
}
pub unsafe fn cstr(s: *const c_char) -> Vec<u8> {
  CStr::from_ptr(s).to_bytes().to_vec()
}
pub unsafe fn data(d: &Data) -> Vec<u8> {
  if d.len == 0 {
    return vec![];
  }
  std::slice::from_raw_parts(d.ptr, d.len).to_vec()
}
impl Obj {
  unsafe fn read(&self) -> Vec<String> {
    match self {
      Obj::Mgr(_) | Obj::Kc(_) => vec![],
      Obj::Data(d) => vec![hx(&data(d))],
      Obj::Str(s) => vec![hx(&cstr(*s))],
      Obj::Nets(n) => {
        let mut v = if n.count == 0 { vec![] } else { std::slice::from_raw_parts(n.ptr, n.count).to_vec() };
        v.sort();
        vec![if v.is_empty() { "-".into() } else { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }]
      }
      Obj::Backup(b) => {
        let v = if b.count == 0 { vec![] } else { std::slice::from_raw_parts(b.ptr, b.count).to_vec() };
        let mut o: Vec<(u32, Vec<u8>)> = v.iter().map(|e| (e.net, data(&e.data))).collect();
        o.sort();
        vec![if o.is_empty() { "-".into() } else { o.iter().map(|(n, d)| format!("{}:{}", n, hx(d))).collect::<Vec<_>>().join(",") }]
      }
      Obj::Info(i) => vec![hx(&cstr(i.mn)), i.lang.to_string()],
      Obj::Error(e) => vec![e.code.to_string(), hx(&cstr(e.msg))]
    }
  }
  /// calls the delete function; Some(what) if the object is not wiped
  unsafe fn delete(&mut self) -> Option<&'static str> {
    let prev = track::enter();
    let wiped = match self {
      Obj::Mgr(h) => {
        delete_keychain_manager(h);
        h.0.is_null()
      }
      Obj::Kc(h) => {
        delete_keychain(h);
        h.0.is_null()
      }
      Obj::Data(d) => {
        delete_data(d);
        d.ptr.is_null()
      }
      Obj::Str(s) => {
        delete_string(*s);
        *s = null();
        true
      }
      Obj::Nets(n) => {
        delete_networks(n);
        n.ptr.is_null()
      }
      Obj::Backup(b) => {
        delete_key_backup(b);
        b.ptr.is_null()
      }
      Obj::Info(i) => {
        delete_mnemonic_info(i);
        i.mn.is_null()
      }
      Obj::Error(e) => {
        delete_error(e);
        e.msg.is_null()
      }
    };
    track::leave(prev);
    if wiped {
      None
    } else {
      Some("delete leaves the pointer in place")
    }
  }
  fn null(kind: &str) -> Obj {
    match kind {
      "mgr" => Obj::Mgr(H(std::ptr::null_mut())),
      "kc" => Obj::Kc(H(std::ptr::null_mut())),
      "data" => Obj::Data(Data { ptr: null(), len: 0 }),
      "datalen" => Obj::Data(Data { ptr: null(), len: 77 }),
      "str" => Obj::Str(null()),
      "nets" => Obj::Nets(Nets { ptr: null(), count: 3 }),
      "backup" => Obj::Backup(Backup { ptr: null(), count: 3 }),
      "info" => Obj::Info(Info { mn: null(), lang: 1 }),
      "error" => Obj::Error(Err { code: 4, msg: null() }),
      _ => panic!("driver: kind")
    }
  }
}
struct Slot {
  o: Obj,
  content: Vec<String>,
  blocks: i64,
  bytes: i64,
  live: bool
}
#[derive(Default)]
struct St {
  slots: HashMap<u32, Slot>,
  next: u32
}
fn now() -> (i64, i64) {
  (track::BLOCKS.load(Relaxed), track::BYTES.load(Relaxed))
}
enum R {
  O(Vec<String>, (i64, i64)),
  E(Vec<String>, (i64, i64)),
  V(String)
}
impl St {
  fn h(&self, s: &str) -> H {
    if s == "null" {
      return H(std::ptr::null_mut());
    }
    match self.slots[&s.parse::<u32>().expect("driver: slot")].o {
      Obj::Mgr(h) | Obj::Kc(h) => h,
      _ => panic!("driver: handle")
    }
  }
  fn keep(&mut self, o: Obj, d0: (i64, i64)) -> (u32, Vec<String>) {
    let d1 = now();
    let content = unsafe { o.read() };
    self.next += 1;
    self.slots.insert(self.next, Slot { o, content: content.clone(), blocks: d1.0 - d0.0, bytes: d1.1 - d0.1, live: true });
    (self.next, content)
  }
  fn obj<T: Copy>(&mut self, keep_err: bool, wrap: impl FnOnce(T) -> Obj, f: impl FnOnce(*mut T, *mut Err) -> bool) -> R {
    let d0 = now();
    match call(f) {
      Res::Bad(w) => R::V(w),
      Res::Ok(v) => {
        let (i, c) = self.keep(wrap(v), d0);
        let mut f = vec![i.to_string()];
        f.extend(c);
        R::O(f, (0, 0))
      }
      Res::Err(e) => self.error(e, d0, keep_err)
    }
  }
  fn error(&mut self, e: Err, d0: (i64, i64), keep: bool) -> R {
    unsafe {
      let m = cstr(e.msg);
      if std::str::from_utf8(&m).is_err() {
        return R::V(format!("error message is not UTF-8: {}", hx(&m)));
      }
      let f = vec![e.code.to_string(), hx(&m)];
      if keep {
        let (i, c) = self.keep(Obj::Error(e), d0);
        return R::E(vec![c[0].clone(), c[1].clone(), i.to_string()], (0, 0));
      }
      if let Some(w) = Obj::Error(e).delete() {
        return R::V(w.into());
      }
      let d1 = now();
      R::E(f, (d1.0 - d0.0, d1.1 - d0.1))
    }
  }
  fn val<T: Copy>(&mut self, keep_err: bool, show: impl FnOnce(T) -> Vec<String>, f: impl FnOnce(*mut T, *mut Err) -> bool) -> R {
    let d0 = now();
    match call(f) {
      Res::Bad(w) => R::V(w),
      Res::Ok(v) => {
        let d1 = now();
        R::O(show(v), (d1.0 - d0.0, d1.1 - d0.1))
      }
      Res::Err(e) => self.error(e, d0, keep_err)
    }
  }
}
pub fn path(s: &str) -> Path {
  let v: Vec<u32> = s.split(',').map(|x| x.parse().unwrap()).collect();
  Path { v: [v[0], v[1], v[2], v[3], v[4]] }
}
fn b8(x: u8) -> Vec<String> {
  vec![match x {
    0 => "false".into(),
    1 => "true".into(),
    n => format!("invalid bool {}", n)
  }]
}
fn pv(p: Path) -> Vec<String> {
  vec![p.v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")]
}

fn run(st: &mut St, op0: &str, a: &[&str]) -> R {
  let (keep, op) = match op0.strip_prefix('+') {
    Some(o) => (true, o),
    None => (false, op0)
  };
  let n = |i: usize| -> u32 { a[i].parse().expect("driver: num") };
  let li = |i: usize| -> i32 { a[i].parse().expect("driver: lang") };
  let bufs: std::cell::RefCell<Vec<std::rc::Rc<Buf>>> = Default::default();
  let buf = |i: usize| {
    let b = std::rc::Rc::new(Buf::new(a[i]));
    bufs.borrow_mut().push(b.clone());
    b
  };
  // string arguments, and the handles that calls only borrow, are watched like the buffers
  let strs: std::cell::RefCell<Vec<(std::rc::Rc<CString>, Vec<u8>)>> = Default::default();
  let cs = |t: &str| {
    let c = std::rc::Rc::new(cs(t));
    strs.borrow_mut().push((c.clone(), c.as_bytes_with_nul().to_vec()));
    c
  };
  let hs: std::cell::RefCell<Vec<(std::rc::Rc<H>, H)>> = Default::default();
  let hk = |h: H| {
    let c = std::rc::Rc::new(h);
    hs.borrow_mut().push((c.clone(), h));
    c
  };
  let r = unsafe {
    match op {
      "ping" => R::O(vec![], (0, 0)),
      "init" => {
        keychain_init_library();
        R::O(vec![], (0, 0))
      }
      "nets" => R::O(vec![format!("{},{},{}", NETWORK_BITCOIN().0, NETWORK_CARDANO().0, NETWORK_ETHEREUM().0)], (0, 0)),
      "live" => R::O(vec![format!("{}:{}", now().0, now().1), track::EVENTS.load(Relaxed).to_string()], (0, 0)),
      "mgr_new" => st.obj(keep, Obj::Mgr, |o, e| keychain_manager_new(o, e)),
      "mgr_has" => {
        let h = hk(st.h(a[0]));
        st.val::<u8>(keep, b8, |o, e| keychain_manager_has_network(&*h, Net(n(1)), o as *mut bool, e))
      }
      "gen_mn" => {
        let h = hk(st.h(a[0]));
        st.obj(keep, Obj::Str, |o, e| keychain_manager_generate_mnemonic(&*h, li(1), o, e))
      }
      "data_seed" => {
        let (h, b, p) = (hk(st.h(a[0])), buf(1), cs(a[2]));
        st.obj(keep, Obj::Data, |o, e| keychain_manager_keychain_data_from_seed(&*h, b.p(), b.n(), p.as_ptr(), o, e))
      }
      "data_mn" => {
        let (h, m, p) = (hk(st.h(a[0])), cs(a[1]), cs(a[2]));
        st.obj(keep, Obj::Data, |o, e| keychain_manager_keychain_data_from_mnemonic(&*h, m.as_ptr(), p.as_ptr(), li(3), o, e))
      }
      "open" => {
        let (h, b, p) = (hk(st.h(a[0])), buf(1), cs(a[2]));
        st.obj(keep, Obj::Kc, |o, e| keychain_manager_keychain_from_data(&*h, b.p(), b.n(), p.as_ptr(), o, e))
      }
      "addnet" => {
        let (h, b, p) = (hk(st.h(a[0])), buf(1), cs(a[2]));
        st.obj(keep, Obj::Data, |o, e| keychain_manager_add_network(&*h, b.p(), b.n(), p.as_ptr(), Net(n(3)), o, e))
      }
      "chpw" => {
        let (h, b, p, q) = (hk(st.h(a[0])), buf(1), cs(a[2]), cs(a[3]));
        st.obj(keep, Obj::Data, |o, e| keychain_manager_change_password(&*h, b.p(), b.n(), p.as_ptr(), q.as_ptr(), o, e))
      }
      "keys_data" => {
        let (h, b, p) = (hk(st.h(a[0])), buf(1), cs(a[2]));
        st.obj(keep, Obj::Backup, |o, e| keychain_manager_get_keys_data(&*h, b.p(), b.n(), p.as_ptr(), o, e))
      }
      "retr_mn" => {
        let (h, b, p) = (hk(st.h(a[0])), buf(1), cs(a[2]));
        st.obj(keep, Obj::Info, |o, e| keychain_manager_retrieve_mnemonic(&*h, b.p(), b.n(), p.as_ptr(), o, e))
      }
      "kc_nets" => {
        let h = hk(st.h(a[0]));
        st.obj(keep, Obj::Nets, |o, e| keychain_networks(&*h, o, e))
      }
      "pk" => {
        let h = hk(st.h(a[0]));
        st.obj(keep, Obj::Data, |o, e| keychain_pub_key(&*h, Net(n(1)), path(a[2]), o, e))
      }
      "sign" => {
        let (h, b) = (hk(st.h(a[0])), buf(3));
        st.obj(keep, Obj::Data, |o, e| keychain_sign(&*h, Net(n(1)), b.p(), b.n(), path(a[2]), o, e))
      }
      "verify" => {
        let (h, b, s) = (hk(st.h(a[0])), buf(3), buf(4));
        st.val::<u8>(keep, b8, |o, e| keychain_verify(&*h, Net(n(1)), b.p(), b.n(), s.p(), s.n(), path(a[2]), o as *mut bool, e))
      }
      "kp_parse" => {
        let s = cs(a[0]);
        st.val(keep, pv, |o, e| keypath_from_string(s.as_ptr(), o, e))
      }
      "kp_btc" => {
        let f = match a[0] {
          "44" => keypath_bitcoin_new_bip44,
          "49" => keypath_bitcoin_new_bip49,
          _ => keypath_bitcoin_new_bip84
        };
        st.val(keep, pv, |o, e| f(n(1) == 1, n(2), n(3), n(4), o, e))
      }
      "kp_ada" => st.val(keep, pv, |o, e| keypath_cardano_new(n(0), n(1), n(2), o, e)),
      "kp_eth" => st.val(keep, pv, |o, e| keypath_ethereum_new(n(0), o, e)),
      "kp_metamask" => st.val(keep, pv, |o, e| keypath_ethereum_new_metamask(n(0), o, e)),
      "read" => {
        // an object is valid until deleted
        let s = &st.slots[&n(0)];
        let c = s.o.read();
        if c != s.content {
          R::V("an object changed between creation and deletion".into())
        } else {
          R::O(c, (0, 0))
        }
      }
      "del" => {
        let s = st.slots.get_mut(&n(0)).unwrap();
        if s.live && s.o.read() != s.content {
          R::V("an object changed between creation and deletion".into())
        } else {
          let d0 = now();
          let w = s.o.delete();
          let d1 = now();
          let x = if s.live { (d1.0 - d0.0 + s.blocks, d1.1 - d0.1 + s.bytes) } else { (d1.0 - d0.0, d1.1 - d0.1) };
          s.live = false;
          match w {
            Some(w) => R::V(w.into()),
            None => R::O(vec![s.blocks.to_string()], x)
          }
        }
      }
      "forget" => {
        st.slots.remove(&n(0));
        R::O(vec![], (0, 0))
      }
      "delnull" => {
        let mut o = Obj::null(a[0]);
        let d0 = now();
        o.delete();
        o.delete();
        let d1 = now();
        R::O(vec![], (d1.0 - d0.0, d1.1 - d0.1))
      }
      "conc" => match conc::run(st.h(a[0]), st.h(a[1]), &a[2..]) {
        Ok(v) => R::O(v, (0, 0)),
        Err(w) => R::V(w)
      },
      _ => panic!("driver: unknown op {}", op)
    }
  };
  let bad = track::take_bad();
  if !bad.is_empty() {
    return R::V(bad.join("; "));
  }
  if !bufs.borrow().iter().all(|b| b.same()) {
    return R::V("an input buffer was changed".into());
  }
  // compared by address: a changed text may have its terminator elsewhere
  if !strs.borrow().iter().all(|(c, k)| unsafe { std::slice::from_raw_parts(c.as_ptr() as *const u8, k.len()) } == &k[..]) {
    return R::V("a string argument was changed".into());
  }
  if !hs.borrow().iter().all(|(c, h)| c.0 == h.0) {
    return R::V("a call changed the handle it was given".into());
  }
  r
}

/// the request and reply streams: fds named by KDRV_FDS ("in,out"), else the standard ones
fn ports() -> (Box<dyn BufRead>, Box<dyn Write>) {
  use std::os::unix::io::FromRawFd;
  match std::env::var("KDRV_FDS") {
    Ok(v) => {
      let f: Vec<i32> = v.split(',').map(|x| x.parse().unwrap()).collect();
      let (i, o) = unsafe { (std::fs::File::from_raw_fd(f[0]), std::fs::File::from_raw_fd(f[1])) };
      (Box::new(std::io::BufReader::new(i)), Box::new(std::io::BufWriter::new(o)))
    }
    Err(_) => (Box::new(std::io::stdin().lock()), Box::new(std::io::BufWriter::new(std::io::stdout().lock())))
  }
}

fn main() {
  // the default hook prints and, with backtraces, keeps symbol tables: not the library's blocks
  std::panic::set_hook(Box::new(|_| {}));
  let arg: Vec<String> = std::env::args().collect();
  if !arg.iter().any(|x| x == "--notrack") {
    track::ON.store(true, Relaxed);
  }
  let mut st = St::default();
  let (mut inp, mut out) = ports();
  let mut line = String::new();
  loop {
    line.clear();
    if inp.read_line(&mut line).unwrap() == 0 {
      break;
    }
    let mut it = line.trim_end_matches('\n').split('\t');
    let op = it.next().unwrap();
    let args: Vec<&str> = it.collect();
    let (k, f) = match run(&mut st, op, &args) {
      R::O(mut v, d) => {
        v.push(format!("{}:{}", d.0, d.1));
        ("O", v)
      }
      R::E(mut v, d) => {
        v.push(format!("{}:{}", d.0, d.1));
        ("E", v)
      }
      R::V(w) => ("V", vec![hx(w.as_bytes())])
    };
    writeln!(out, "{}\t{}", k, f.join("\t")).unwrap();
    out.flush().unwrap();
  }
}
