//! Networks of an application: factories and keys that record every call made to them and behave as they are told to.
use keychain::{Key, KeyError, KeyFactory, KeyPath, Keychain, KeychainManager, Network, SeedSize};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

thread_local! {
  static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
  static HOW: RefCell<HashMap<(u32, String), String>> = RefCell::new(HashMap::new());
  static LIVE: Cell<(i64, i64)> = Cell::new((0, 0));
  static DEPTH: Cell<u32> = Cell::new(0);
  // inner wallets of the current call: their cost grows with networks times data, so that only the first few calls make one
  pub static INNER: Cell<u32> = Cell::new(0);
  static SEQ: Cell<u64> = Cell::new(0);
  pub static MGR: Cell<*const KeychainManager> = Cell::new(std::ptr::null());
  pub static KC: Cell<*const Keychain> = Cell::new(std::ptr::null());
}

/// the application's own error type; it has to come back as it is
#[derive(Debug)]
pub struct AppErr(pub String);
impl std::fmt::Display for AppErr {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "application says {}", self.0)
  }
}
impl std::error::Error for AppErr {}

pub fn set(net: u32, what: &str, how: &str) {
  HOW.with(|h| h.borrow_mut().insert((net, what.to_string()), how.to_string()));
}
pub fn reset() {
  HOW.with(|h| h.borrow_mut().clear());
  LOG.with(|l| l.borrow_mut().clear());
}
pub fn calls() -> Vec<String> {
  DEPTH.with(|d| d.set(0));
  MGR.with(|x| x.set(std::ptr::null()));
  KC.with(|x| x.set(std::ptr::null()));
  LOG.with(|l| l.borrow_mut().drain(..).collect())
}
pub fn live() -> (i64, i64) {
  LIVE.with(|l| l.get())
}
fn alive(f: i64, k: i64) {
  LIVE.with(|l| {
    let (a, b) = l.get();
    l.set((a + f, b + k))
  });
}
fn how(net: u32, what: &str) -> String {
  HOW.with(|h| h.borrow().get(&(net, what.to_string())).cloned()).unwrap_or_else(|| "ok".into())
}
fn log(s: String) {
  if DEPTH.with(|d| d.get()) > 0 && !s.starts_with("R:") {
    return;
  }
  LOG.with(|l| l.borrow_mut().push(s));
}
fn p20(p: &dyn KeyPath) -> String {
  format!("{}.{}.{}.{}.{}", p.purpose(), p.coin(), p.account(), p.change(), p.address())
}
/// what the application does with a call: Some(error), panic, re-enter the library, or go on
fn act(net: u32, what: &str) -> Result<String, KeyError> {
  let h = how(net, what);
  let p: Vec<&str> = h.split(':').collect();
  match p[0] {
    "size" => Err(KeyError::InvalidKeySize(p[1].parse().unwrap(), p[2].parse().unwrap())),
    "sigsize" => Err(KeyError::InvalidSignatureSize(p[1].parse().unwrap(), p[2].parse().unwrap())),
    "data" => Err(KeyError::InvalidKeyData(Box::new(AppErr(p[1].to_string())))),
    "sign" => Err(KeyError::SignError(Box::new(AppErr(p[1].to_string())))),
    "panic" if DEPTH.with(|d| d.get()) > 0 => Err(KeyError::SignError(Box::new(AppErr("inner".to_string())))),
    "panic" => panic!("application panics in {}", what),
    "reenter" => {
      if DEPTH.with(|d| d.get()) == 0 {
        reenter();
      }
      Ok("ok".into())
    }
    _ => Ok(h)
  }
}
fn reenter() {
  let m = MGR.with(|x| x.get());
  if !m.is_null() {
    let m = unsafe { &*m };
    let w = m.generate_mnemonic(None).map(|s| s.split(' ').count()).unwrap_or(0);
    log(format!("R:mgr:{}", w));
    let b = keychain::crypt::encrypt(b"inner", "pw", &keychain::OsEntropy::new());
    if DEPTH.with(|d| d.get()) == 0 && INNER.with(|d| d.replace(d.get() + 1)) < 2 {
      // a wallet is made, read and extended by the same manager inside its own operation
      DEPTH.with(|d| d.set(1));
      let ok = match m.keychain_data_from_seed(&[9; 64], "in") {
        Err(e) => format!("{:?}", e).contains("KeyError"),
        Ok(w) => match m.keychain_from_data(&w, "in") {
          Err(e) => format!("{:?}", e).contains("KeyError"),
          Ok(k) => k.networks().iter().take(if w.len() > 50_000 { 1 } else { 6 }).all(|n| m.has_network(n) && matches!(m.add_network(&w, "in", *n), Err(keychain::Error::KeyAlreadyExist(_))))
        }
      };
      DEPTH.with(|d| d.set(0));
      log(format!("R:wallet:{}", ok));
    }
    log(format!("R:chpw:{}", m.change_password(&b, "pw", "pw2").is_ok()));
  }
  let k = KC.with(|x| x.get());
  if !k.is_null() {
    let k = unsafe { &*k };
    let mut n: Vec<u32> = k.networks().iter().map(|x| x.0).collect();
    n.sort();
    let has = n.iter().all(|x| k.has_network(&Network(*x)));
    log(format!("R:kc:{}:{}", n.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."), has));
    // every other key, the one being used as well, once
    if DEPTH.with(|d| d.get()) == 0 && INNER.with(|d| d.replace(d.get() + 1)) < 40 {
      DEPTH.with(|d| d.set(1));
      for x in &n {
        let p = super::P5([0x8000002c, if *x == 0x8000003c || *x == 0x80000717 { *x } else { 0x80000000 }, 0x80000000, 0, 1]);
        let a = k.pub_key(&Network(*x), &p);
        let b = k.sign(&Network(*x), b"inner", &p);
        let c = b.as_ref().ok().map(|s| k.verify(&Network(*x), b"inner", s, &p));
        let how = |w: &str| how(*x, w).split(':').next().map(|h| matches!(h, "ok" | "reenter")).unwrap_or(false);
        let ok = (a.is_ok() || !how("pub")) && (!how("sig") || !how("ver") || matches!(c, Some(Ok(true))));
        log(format!("R:key:{}:{}", x, ok));
      }
      DEPTH.with(|d| d.set(0));
    }
  }
}
fn result(h: &str, mut dflt: Vec<u8>) -> Vec<u8> {
  let p: Vec<&str> = h.split(':').collect();
  match p[0] {
    "bytes" => super::unhx(p[1]),
    "long" => {
      let n: usize = p[1].parse().unwrap();
      let mut i = 0u32;
      while dflt.len() < n {
        dflt.extend_from_slice(&i.wrapping_mul(2654435761).to_be_bytes());
        i += 1;
      }
      dflt
    }
    "fresh" => {
      SEQ.with(|s| s.set(s.get() + 1));
      dflt.extend_from_slice(&SEQ.with(|s| s.get()).to_be_bytes());
      dflt
    }
    _ => dflt
  }
}

pub struct RecKey {
  net: u32,
  data: Vec<u8>
}
impl RecKey {
  fn new(net: u32, data: &[u8]) -> RecKey {
    alive(0, 1);
    RecKey { net, data: data.to_vec() }
  }
}
impl Drop for RecKey {
  fn drop(&mut self) {
    alive(0, -1)
  }
}
impl Key for RecKey {
  fn network(&self) -> Network {
    Network(self.net)
  }
  fn pub_key(&self, p: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
    let c = format!("P:{}:{}:{}", self.net, super::hx(&self.data), p20(p));
    let r = act(self.net, "pub").map(|h| result(&h, [b"pub".as_ref(), &self.data, p20(p).as_bytes()].concat()));
    log(format!("{}:{}", c, r.as_ref().map(|v| super::hx(v)).unwrap_or("!".into())));
    r
  }
  fn sign(&self, d: &[u8], p: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
    let c = format!("S:{}:{}:{}:{}", self.net, super::hx(&self.data), p20(p), super::hx(d));
    let r = act(self.net, "sig").map(|h| result(&h, [b"sig".as_ref(), &self.data, p20(p).as_bytes(), d].concat()));
    log(format!("{}:{}", c, r.as_ref().map(|v| super::hx(v)).unwrap_or("!".into())));
    r
  }
  fn verify(&self, d: &[u8], s: &[u8], p: &dyn KeyPath) -> Result<bool, KeyError> {
    let c = format!("V:{}:{}:{}:{}:{}", self.net, super::hx(&self.data), p20(p), super::hx(d), super::hx(s));
    let r = act(self.net, "ver").map(|h| match h.as_str() {
      "true" => true,
      "false" => false,
      _ => s == [b"sig".as_ref(), &self.data, p20(p).as_bytes(), d].concat().as_slice()
    });
    log(format!("{}:{}", c, r.as_ref().map(|v| v.to_string()).unwrap_or("!".into())));
    r
  }
}
pub struct RecFactory {
  net: u32,
  min: usize,
  max: usize
}
impl RecFactory {
  pub fn new(net: u32, min: usize, max: usize) -> RecFactory {
    alive(1, 0);
    RecFactory { net, min, max }
  }
}
impl Drop for RecFactory {
  fn drop(&mut self) {
    alive(-1, 0)
  }
}
impl KeyFactory for RecFactory {
  fn network(&self) -> Network {
    Network(self.net)
  }
  fn seed_size(&self) -> SeedSize {
    SeedSize { min: self.min, max: self.max }
  }
  fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
    log(format!("F:{}:{}", self.net, super::hx(data)));
    act(self.net, "open").map(|_| Box::new(RecKey::new(self.net, data)) as Box<dyn Key>)
  }
  fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
    let r = act(self.net, "data").map(|h| result(&h, [&self.net.to_be_bytes(), seed].concat()));
    log(format!("K:{}:{}:{}", self.net, super::hx(seed), r.as_ref().map(|v| super::hx(v)).unwrap_or("!".into())));
    r
  }
}
pub fn key(net: u32, data: &[u8]) -> Box<dyn Key> {
  Box::new(RecKey::new(net, data))
}
/// what an error of the library carries: network|kind|fields
pub fn cause(e: &keychain::Error) -> String {
  match e {
    keychain::Error::KeyError(n, k) => format!("{}|{}", n.0, kcause(k)),
    _ => String::new()
  }
}
fn bx(e: &Box<dyn std::error::Error>) -> String {
  match e.downcast_ref::<AppErr>() {
    Some(a) => format!("app={}", a.0),
    None => format!("other={}", e)
  }
}
pub fn kcause(k: &KeyError) -> String {
  match k {
    KeyError::InvalidKeySize(a, b) => format!("size:{}:{}", a, b),
    KeyError::InvalidSignatureSize(a, b) => format!("sigsize:{}:{}", a, b),
    KeyError::InvalidKeyData(e) => format!("data:{}", bx(e)),
    KeyError::SignError(e) => format!("sign:{}", bx(e)),
    _ => "other".into()
  }
}
