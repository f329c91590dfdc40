//! Line-protocol driver over the public Rust API of the workspace.
//! Request:  op<TAB>arg<TAB>...      bytes are hex ("-" = empty), numbers decimal
//! Reply:    O<TAB>field...  |  E<TAB>variant<TAB>debug-hex<TAB>display-hex  |  P<TAB>message-hex
use bip39::dictionary::{DefaultDictionary, Language as _};
use bip39::util::{bits, hex as bhex, securemem};
use keychain::networks::{bitcoin, cardano, ethereum};
use keychain::{crypt, Entropy, GenericKeyPath, Key, KeyFactory, KeyPath, Keychain, KeychainManager, Language, Network, SeedSize};
use secp256k1_bip32::{XPrv, XPub};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
  fn fork() -> i32;
  fn pipe(p: *mut i32) -> i32;
  fn close(f: i32) -> i32;
  fn read(f: i32, b: *mut u8, n: usize) -> isize;
  fn write(f: i32, b: *const u8, n: usize) -> isize;
  fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
  fn _exit(c: i32) -> !;
}
thread_local!(static VALS: RefCell<String> = RefCell::new(String::new()));
thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));

fn hx(b: &[u8]) -> String {
  if b.is_empty() {
    return "-".into();
  }
  const D: &[u8; 16] = b"0123456789abcdef";
  let mut s = String::with_capacity(b.len() * 2);
  for x in b {
    s.push(D[(x >> 4) as usize] as char);
    s.push(D[(x & 15) as usize] as char);
  }
  s
}
fn unhx(s: &str) -> Vec<u8> {
  if s == "-" {
    return vec![];
  }
  let v = |c: u8| match c {
    b'0'..=b'9' => c - b'0',
    b'a'..=b'f' => c - b'a' + 10,
    _ => panic!("driver: bad hex")
  };
  s.as_bytes().chunks(2).map(|c| v(c[0]) << 4 | v(c[1])).collect()
}
fn ustr(s: &str) -> String {
  String::from_utf8(unhx(s)).expect("driver: utf8")
}

/// the printed forms of a value whose type may or may not have any
struct Shown<'a, T>(&'a T);
trait NotShown {
  fn dbg(&self) -> String {
    String::new()
  }
  fn dsp(&self) -> String {
    String::new()
  }
}
impl<'a, T> NotShown for &Shown<'a, T> {}
impl<'a, T: std::fmt::Debug> Shown<'a, T> {
  fn dbg(&self) -> String {
    format!("{:?}", self.0)
  }
}
impl<'a, T: std::fmt::Display> Shown<'a, T> {
  fn dsp(&self) -> String {
    self.0.to_string()
  }
}
macro_rules! shown {
  ($v:expr) => {
    hx(format!("{} {}", (&Shown($v)).dbg(), (&Shown($v)).dsp()).as_bytes())
  };
}

enum R {
  O(Vec<String>),
  E(String, String, String)
}
fn o(v: Vec<String>) -> R {
  R::O(v)
}
fn ob(b: &[u8]) -> R {
  R::O(vec![hx(b)])
}
fn er<E: std::fmt::Debug + std::fmt::Display>(kind: &str, e: &E) -> R {
  R::E(kind.into(), format!("{:?}", e), format!("{}", e))
}
fn ke(e: &keychain::Error) -> R {
  use keychain::Error::*;
  let k = match e {
    WrongPassword => "WrongPassword",
    NotEnoughData => "NotEnoughData",
    SeedIsNotSaved => "SeedIsNotSaved",
    CantCalculateSeedSize(_, _) => "CantCalculateSeedSize",
    InvalidSeedSize(_) => "InvalidSeedSize",
    KeyDoesNotExist(_) => "KeyDoesNotExist",
    KeyAlreadyExist(_) => "KeyAlreadyExist",
    NetworkIsNotSupported(_) => "NetworkIsNotSupported",
    DataError(_) => "DataError",
    KeyError(_, _) => "KeyError",
    MnemonicError(_) => "MnemonicError",
    KeyPathError(_) => "KeyPathError"
  };
  let v: Vec<u64> = match e {
    CantCalculateSeedSize(a, b) => vec![*a as u64, *b as u64],
    InvalidSeedSize(a) => vec![*a as u64],
    KeyDoesNotExist(n) | KeyAlreadyExist(n) | NetworkIsNotSupported(n) | KeyError(n, _) => vec![n.0 as u64],
    _ => vec![]
  };
  VALS.with(|x| *x.borrow_mut() = csv(&v));
  er(k, e)
}
fn keyerr(e: &keychain::KeyError) -> R {
  er("Key", e)
}
fn be(e: &bip39::Error) -> R {
  use bip39::Error::*;
  let k = match e {
    WrongNumberOfWords(_) => "WrongNumberOfWords",
    WrongKeySize(_) => "WrongKeySize",
    MnemonicOutOfBound(_) => "MnemonicOutOfBound",
    LanguageError(_) => "LanguageError",
    InvalidSeedSize(_) => "InvalidSeedSize",
    InvalidChecksum(_, _) => "InvalidChecksum"
  };
  er(k, e)
}
fn de(e: &crypt::DecryptError) -> R {
  let k = match e {
    crypt::DecryptError::NotEnoughData => "NotEnoughData",
    crypt::DecryptError::DecryptionFailed => "DecryptionFailed"
  };
  er(k, e)
}

const LANGS: [Language; 8] = [
  Language::English,
  Language::French,
  Language::Japanese,
  Language::Korean,
  Language::ChineseSimplified,
  Language::ChineseTraditional,
  Language::Italian,
  Language::Spanish
];
fn lang(s: &str) -> Option<Language> {
  let i: i32 = s.parse().expect("driver: lang");
  if i < 0 {
    None
  } else {
    Some(LANGS[i as usize])
  }
}
fn langno(l: Language) -> String {
  LANGS.iter().position(|x| *x == l).unwrap().to_string()
}
/// the built-in dictionaries of the bip39 crate, in the keychain crate's language order,
/// not going through the keychain crate's mapping
fn bdict(s: &str) -> &'static DefaultDictionary {
  use bip39::dictionary::*;
  static D: [&DefaultDictionary; 8] =
    [&ENGLISH, &FRENCH, &JAPANESE, &KOREAN, &CHINESE_SIMPLIFIED, &CHINESE_TRADITIONAL, &ITALIAN, &SPANISH];
  D[s.parse::<usize>().unwrap()]
}
fn nums(s: &str) -> Vec<u32> {
  if s == "-" {
    return vec![];
  }
  s.split(',').map(|x| x.parse().expect("driver: num")).collect()
}
fn csv<T: ToString>(v: &[T]) -> String {
  if v.is_empty() {
    return "-".into();
  }
  v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

struct P5([u32; 5]);
impl KeyPath for P5 {
  fn purpose(&self) -> u32 {
    self.0[0]
  }
  fn coin(&self) -> u32 {
    self.0[1]
  }
  fn account(&self) -> u32 {
    self.0[2]
  }
  fn change(&self) -> u32 {
    self.0[3]
  }
  fn address(&self) -> u32 {
    self.0[4]
  }
}
fn p5(s: &str) -> P5 {
  let v = nums(s);
  P5([v[0], v[1], v[2], v[3], v[4]])
}

struct FixedEntropy(RefCell<(Vec<u8>, usize)>);
impl Entropy for FixedEntropy {
  fn fill_bytes(&self, into: &mut [u8]) {
    let mut s = self.0.borrow_mut();
    let n = into.len();
    let p = s.1;
    into.copy_from_slice(&s.0[p..p + n]);
    s.1 += n;
  }
}

mod dict;
mod rec;

struct CustomKey(u32, Vec<u8>);
impl Key for CustomKey {
  fn network(&self) -> Network {
    Network(self.0)
  }
  fn pub_key(&self, _p: &dyn KeyPath) -> Result<Vec<u8>, keychain::KeyError> {
    Ok(self.1.clone())
  }
  fn sign(&self, d: &[u8], _p: &dyn KeyPath) -> Result<Vec<u8>, keychain::KeyError> {
    Ok(d.to_vec())
  }
  fn verify(&self, d: &[u8], s: &[u8], _p: &dyn KeyPath) -> Result<bool, keychain::KeyError> {
    Ok(d == s)
  }
}
struct CustomFactory(u32, usize, usize);
impl KeyFactory for CustomFactory {
  fn network(&self) -> Network {
    Network(self.0)
  }
  fn seed_size(&self) -> SeedSize {
    SeedSize { min: self.1, max: self.2 }
  }
  fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, keychain::KeyError> {
    Ok(Box::new(CustomKey(self.0, data.to_vec())))
  }
  fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, keychain::KeyError> {
    let mut v = self.0.to_be_bytes().to_vec();
    v.extend_from_slice(seed);
    Ok(v)
  }
}
fn factory(net: u32) -> Box<dyn KeyFactory> {
  if Network(net) == Network::BITCOIN {
    Box::new(bitcoin::KeyFactory::new())
  } else if Network(net) == Network::ETHEREUM {
    Box::new(ethereum::KeyFactory::new())
  } else {
    Box::new(cardano::KeyFactory::new())
  }
}

#[derive(Default)]
struct St {
  dicts: dict::Dicts,
  mgr: HashMap<u32, KeychainManager>,
  kc: HashMap<u32, Keychain>,
  entropy: Option<keychain::OsEntropy>,
  next: u32
}
impl St {
  fn id(&mut self) -> u32 {
    self.next += 1;
    self.next
  }
}

fn path5(p: &dyn KeyPath) -> String {
  csv(&[p.purpose(), p.coin(), p.account(), p.change(), p.address()])
}

fn xstep(x: &XPrv) -> String {
  let p = x.public();
  format!("{}:{}:{}:{}:{}", hx(&x.serialize()), hx(&p.serialize()), hx(&p.serialize_compressed()), hx(&p.sha256()), hx(&p.compressed_sha256()))
}
fn xroot(kind: &str, d: &str) -> Result<XPrv, R> {
  let d = unhx(d);
  match kind {
    "seed" => {
      let s = bip39::Seed::from_slice(&d).map_err(|e| be(&e))?;
      XPrv::from_seed(&s).map_err(|e| er("Secp", &e))
    }
    "data" => XPrv::from_data(&d).map_err(|e| er("Secp", &e)),
    _ => panic!("driver: xroot")
  }
}
fn xderive(mut x: XPrv, path: &[u32]) -> Result<XPrv, R> {
  for i in path {
    x = x.derive(*i).map_err(|e| er("Secp", &e))?;
  }
  Ok(x)
}
fn tri<T, E>(r: Result<T, E>, f: impl FnOnce(T) -> R, g: impl FnOnce(&E) -> R) -> R {
  match r {
    Ok(v) => f(v),
    Err(e) => g(&e)
  }
}

fn run(st: &mut St, op: &str, a: &[&str]) -> R {
  let n = |i: usize| -> u32 { a[i].parse().expect("driver: num") };
  match op {
    "ping" => o(vec![]),
    // ---- bip39
    "ent_to_mn" => {
      let d = bdict(a[0]);
      tri(
        bip39::Entropy::from_slice(&unhx(a[1])),
        |e| {
          let m = e.to_mnemonics();
          let idx: Vec<u16> = m.as_ref().iter().map(|x| x.0).collect();
          let s = m.to_string(d);
          o(vec![
            hx(s.as_bytes()),
            csv(&idx),
            m.get_type().mnemonic_count().to_string(),
            e.get_type().mnemonic_count().to_string(),
            e.checksum().to_string(),
            hx(format!("{}", e).as_bytes()),
            hx(format!("{}", s).as_bytes()),
            hx(&e)
          ])
        },
        be
      )
    }
    "idx_to_ent" => {
      let v: Vec<bip39::MnemonicIndex> = nums(a[0]).into_iter().map(|x| bip39::MnemonicIndex(x as u16)).collect();
      match bip39::Mnemonics::from_mnemonics(v) {
        Err(e) => be(&e),
        Ok(m) => {
          assert_eq!(m.to_string(&bip39::dictionary::ENGLISH).split(' ').count(), nums(a[0]).len());
          tri(bip39::Entropy::from_mnemonics(&m), |e| ob(&e), be)
        }
      }
    }
    "idx_new" => tri(bip39::MnemonicIndex::new(n(0) as u16), |m| o(vec![m.0.to_string()]), be),
    "mn_parse" => {
      let d = bdict(a[0]);
      let s = ustr(a[1]);
      let ms = bip39::MnemonicString::new(d, s.clone());
      match bip39::Mnemonics::from_string(d, &s) {
        Err(e) => {
          assert!(ms.is_err(), "MnemonicString accepts what Mnemonics refuses");
          be(&e)
        }
        Ok(m) => {
          let ms = ms.expect("MnemonicString refuses what Mnemonics accepts");
          let idx: Vec<u16> = m.as_ref().iter().map(|x| x.0).collect();
          let ent = match bip39::Entropy::from_mnemonics(&m) {
            Ok(e) => hx(&e),
            Err(_) => "badsum".into()
          };
          o(vec![csv(&idx), ent, hx(m.to_string(d).as_bytes()), hx(ms.as_bytes()), m.get_type().to_string()])
        }
      }
    }
    "seed" => {
      let d = bdict(a[0]);
      tri(bip39::MnemonicString::new(d, ustr(a[1])), |m| ob(&bip39::Seed::from_mnemonic_string(&m, &unhx(a[2]))), be)
    }
    "seed_slice" => tri(
      bip39::Seed::from_slice(&unhx(a[0])),
      |s| o(vec![hx(&s), hx(format!("{}", s).as_bytes()), hx(format!("{:?}", s).as_bytes())]),
      be
    ),
    "seed_eq" => {
      let (x, y) = (bip39::Seed::from_slice(&unhx(a[0])), bip39::Seed::from_slice(&unhx(a[1])));
      match (x, y) {
        (Ok(x), Ok(y)) => {
          let mut f = [0u8; 64];
          f.copy_from_slice(&unhx(a[1]));
          let z = bip39::Seed::from_bytes(f);
          o(vec![(x == y).to_string(), (y == x).to_string(), (x != y).to_string(), (z == y).to_string(), hx(&x), hx(y.as_ref()), hx(&z)])
        }
        (Err(e), _) | (_, Err(e)) => be(&e)
      }
    }
    "word_idx" => tri(
      bip39::MnemonicIndex::from_word(bdict(a[0]), &ustr(a[1])),
      |m| o(vec![m.0.to_string()]),
      be
    ),
    "word_idx_kc" => tri(
      bip39::MnemonicIndex::from_word(LANGS[n(0) as usize].to_dict(), &ustr(a[1])),
      |m| o(vec![m.0.to_string()]),
      be
    ),
    "idx_word" => tri(bdict(a[0]).lookup_word(bip39::MnemonicIndex(n(1) as u16)), |w| ob(w.as_bytes()), |e| er("Dict", e)),
    "dict_name" => o(vec![hx(bdict(a[0]).name().as_bytes()), hx(bdict(a[0]).separator().as_bytes())]),
    "idx_to_word" => ob(bip39::MnemonicIndex(n(1) as u16).to_word(bdict(a[0])).as_bytes()),
    "type_words" => tri(
      bip39::Type::from_word_count(n(0) as usize),
      |t| o(vec![t.mnemonic_count().to_string(), t.to_key_size().to_string(), t.checksum_size_bits().to_string(), t.to_string()]),
      be
    ),
    "type_bits" => tri(
      bip39::Type::from_entropy_size(n(0) as usize),
      |t| o(vec![t.mnemonic_count().to_string(), t.to_key_size().to_string(), t.checksum_size_bits().to_string()]),
      be
    ),
    "type_str" => match ustr(a[0]).parse::<bip39::Type>() {
      Ok(t) => o(vec![t.mnemonic_count().to_string()]),
      Err(e) => R::E("Type".into(), e.into(), e.into())
    },
    "ent_gen" => {
      let t = bip39::Type::from_word_count(n(0) as usize).expect("driver: type");
      let src = unhx(a[1]);
      let pos = std::cell::Cell::new(0usize);
      let e = bip39::Entropy::generate(t, |b| {
        let p = pos.get();
        b.copy_from_slice(&src[p..p + b.len()]);
        pos.set(p + b.len());
      });
      o(vec![hx(&e), pos.get().to_string()])
    }
    "hex_enc" => ob(bhex::encode(&unhx(a[0])).as_bytes()),
    "hex_dec" => tri(bhex::decode(&ustr(a[0])), |v| ob(&v), |e| er("Hex", e)),
    "bits_write" => {
      let mut w = bits::BitWriterBy11::new();
      for x in nums(a[0]) {
        w.write(x as u16);
      }
      ob(&w.to_bytes())
    }
    "bits_read" => {
      let b = unhx(a[0]);
      let mut r = bits::BitReaderBy11::new(&b);
      let (mut v, mut s) = (vec![], vec![r.size()]);
      for _ in 0..n(1) {
        v.push(r.read());
        s.push(r.size());
      }
      o(vec![csv(&v), csv(&s)])
    }
    "zero" => {
      let mut b = unhx(a[0]);
      let (i, j) = (n(1) as usize, n(2) as usize);
      securemem::zero(&mut b[i..j]);
      ob(&b)
    }
    // ---- secp256k1_bip32
    "x_chain" => {
      // root-kind root path(csv): serialisation of every step
      let mut x = match xroot(a[0], a[1]) {
        Ok(x) => x,
        Err(e) => return e
      };
      let mut out = vec![xstep(&x)];
      for i in nums(a[2]) {
        x = match x.derive(i) {
          Ok(x) => x,
          Err(e) => return er("Secp", &e)
        };
        out.push(xstep(&x));
      }
      o(out)
    }
    "x_sign" => match xroot(a[0], a[1]).and_then(|x| xderive(x, &nums(a[2]))) {
      Err(e) => e,
      Ok(x) => tri(x.sign(&unhx(a[3])), |s| ob(&s), |e| er("Secp", e))
    },
    "x_verify" => match xroot(a[0], a[1]).and_then(|x| xderive(x, &nums(a[2]))) {
      Err(e) => e,
      Ok(x) => {
        let p: XPub = x.public();
        tri(p.verify(&unhx(a[3]), &unhx(a[4])), |b| o(vec![b.to_string()]), |e| er("Secp", e))
      }
    },
    // ---- sealing
    "enc_kept" => {
      let e = st.entropy.get_or_insert_with(keychain::OsEntropy::new);
      ob(&crypt::encrypt(&unhx(a[0]), &ustr(a[1]), e))
    }
    // the same work in a copy of this process (made now) and in this process
    "forked" => {
      let work = |st: &St| -> Vec<u8> {
        let mut v = st.mgr[&n(0)].keychain_data_from_seed(&[1; 64], "p").expect("sealed");
        v.truncate(44);
        v.extend_from_slice(st.mgr[&n(0)].generate_mnemonic(None).expect("phrase").as_bytes());
        v
      };
      unsafe {
        let mut p = [0i32; 2];
        assert!(pipe(p.as_mut_ptr()) == 0);
        let id = fork();
        if id == 0 {
          let v = catch_unwind(AssertUnwindSafe(|| work(st))).unwrap_or(vec![]);
          let mut k = 0;
          while k < v.len() {
            let w = write(p[1], v[k..].as_ptr(), v.len() - k);
            if w <= 0 { break }
            k += w as usize;
          }
          _exit(0);
        }
        close(p[1]);
        let mut v = vec![0u8; 4096];
        let mut k = 0;
        loop {
          let r = read(p[0], v[k..].as_mut_ptr(), v.len() - k);
          if r <= 0 { break }
          k += r as usize;
        }
        close(p[0]);
        waitpid(id, std::ptr::null_mut(), 0);
        v.truncate(k);
        o(vec![hx(&v), hx(&work(st))])
      }
    }
    "enc" => ob(&crypt::encrypt(&unhx(a[0]), &ustr(a[1]), &keychain::OsEntropy::new())),
    "enc_with" => {
      let fe = FixedEntropy(RefCell::new((unhx(a[2]), 0)));
      let out = crypt::encrypt(&unhx(a[0]), &ustr(a[1]), &fe);
      let used = fe.0.borrow().1;
      o(vec![hx(&out), used.to_string()])
    }
    "dec" => tri(crypt::decrypt(&unhx(a[0]), &ustr(a[1])), |v| ob(&v), de),
    // ---- managers and wallets
    "mgr_new" => tri(
      KeychainManager::new(),
      |m| {
        let i = st.id();
        st.mgr.insert(i, m);
        o(vec![i.to_string()])
      },
      ke
    ),
    "mgr_with" => {
      let nets: Vec<Network> = nums(a[0]).into_iter().map(Network).collect();
      tri(
        KeychainManager::with_networks(&nets),
        |m| {
          let i = st.id();
          st.mgr.insert(i, m);
          o(vec![i.to_string()])
        },
        ke
      )
    }
    "mgr_custom" => {
      // min:max:net,...   net of a built-in network with 0:0 uses the built-in factory
      let mut f: Vec<Box<dyn KeyFactory>> = vec![];
      if a[0] != "-" {
        for t in a[0].split(',') {
          let v: Vec<u64> = t.split(':').map(|x| x.parse().unwrap()).collect();
          if v[0] == 0 && v[1] == 0 {
            f.push(factory(v[2] as u32));
          } else {
            f.push(Box::new(CustomFactory(v[2] as u32, v[0] as usize, v[1] as usize)));
          }
        }
      }
      tri(
        KeychainManager::with_factories(f),
        |m| {
          let i = st.id();
          st.mgr.insert(i, m);
          o(vec![i.to_string()])
        },
        ke
      )
    }
    "mgr_free" => {
      st.mgr.remove(&n(0));
      o(vec![])
    }
    "mgr_has" => o(vec![st.mgr[&n(0)].has_network(&Network(n(1))).to_string(), st.mgr[&n(0)].get_key_factory(&Network(n(1))).map(|f| f.network().0 as i64).unwrap_or(-1).to_string()]),
    "net_all" => o(vec![csv(&Network::all().iter().map(|x| x.0).collect::<Vec<_>>()), csv(&[Network::BITCOIN.0, Network::ETHEREUM.0, Network::CARDANO.0])]),
    "gen_mn" => tri(st.mgr[&n(0)].generate_mnemonic(lang(a[1])), |s| ob(s.as_bytes()), ke),
    "data_seed" => tri(st.mgr[&n(0)].keychain_data_from_seed(&unhx(a[1]), &ustr(a[2])), |v| ob(&v), ke),
    "data_mn" => tri(st.mgr[&n(0)].keychain_data_from_mnemonic(&ustr(a[1]), &ustr(a[2]), lang(a[3])), |v| ob(&v), ke),
    "open" => tri(
      st.mgr[&n(0)].keychain_from_data(&unhx(a[1]), &ustr(a[2])),
      |k| {
        let mut nets: Vec<u32> = k.networks().iter().map(|x| x.0).collect();
        nets.sort();
        let i = st.id();
        st.kc.insert(i, k);
        o(vec![i.to_string(), csv(&nets)])
      },
      ke
    ),
    "kc_free" => {
      st.kc.remove(&n(0));
      o(vec![])
    }
    "kc_nets" => {
      let mut nets: Vec<u32> = st.kc[&n(0)].networks().iter().map(|x| x.0).collect();
      nets.sort();
      o(vec![csv(&nets)])
    }
    "kc_has" => o(vec![st.kc[&n(0)].has_network(&Network(n(1))).to_string()]),
    "chpw" => tri(st.mgr[&n(0)].change_password(&unhx(a[1]), &ustr(a[2]), &ustr(a[3])), |v| ob(&v), ke),
    "addnet" => tri(st.mgr[&n(0)].add_network(&unhx(a[1]), &ustr(a[2]), Network(n(3))), |v| ob(&v), ke),
    "retr_mn" => tri(st.mgr[&n(0)].retrieve_mnemonic(&unhx(a[1]), &ustr(a[2])), |(m, l)| o(vec![hx(m.as_bytes()), langno(l)]), ke),
    "keys_data" => tri(
      st.mgr[&n(0)].get_keys_data(&unhx(a[1]), &ustr(a[2])),
      |mut v| {
        v.sort_by_key(|x| x.0 .0);
        o(v.iter().map(|(n, d)| format!("{}:{}", n.0, hx(d))).collect())
      },
      ke
    ),
    "pk" => tri(st.kc[&n(0)].pub_key(&Network(n(1)), &p5(a[2])), |v| ob(&v), ke),
    "sign" => tri(st.kc[&n(0)].sign(&Network(n(1)), &unhx(a[3]), &p5(a[2])), |v| ob(&v), ke),
    "verify" => tri(st.kc[&n(0)].verify(&Network(n(1)), &unhx(a[3]), &unhx(a[4]), &p5(a[2])), |b| o(vec![b.to_string()]), ke),
    // ---- networks of the application, recorded
    "rec_mgr" => {
      // b:net or net:min:max
      let mut f: Vec<Box<dyn KeyFactory>> = vec![];
      if a[0] != "-" {
        for t in a[0].split(',') {
          let v: Vec<&str> = t.split(':').collect();
          if v[0] == "b" {
            f.push(factory(v[1].parse().unwrap()));
          } else {
            f.push(Box::new(rec::RecFactory::new(v[0].parse().unwrap(), v[1].parse().unwrap(), v[2].parse().unwrap())));
          }
        }
      }
      tri(
        KeychainManager::with_factories(f),
        |m| {
          let i = st.id();
          st.mgr.insert(i, m);
          o(vec![i.to_string()])
        },
        ke
      )
    }
    "rec_set" => {
      rec::set(n(0), a[1], a[2]);
      o(vec![])
    }
    "rec_reset" => {
      rec::reset();
      o(vec![])
    }
    "rec_calls" => o(rec::calls()),
    "rec_live" => {
      let (f, k) = rec::live();
      o(vec![f.to_string(), k.to_string()])
    }
    "rec_kc" => {
      // a keychain of recorded keys: net:data,...
      let mut keys: Vec<Box<dyn Key>> = vec![];
      if a[0] != "-" {
        for t in a[0].split(',') {
          let (nn, d) = t.split_once(':').unwrap();
          keys.push(rec::key(nn.parse().unwrap(), &unhx(d)));
        }
      }
      let i = st.id();
      st.kc.insert(i, Keychain::new(keys));
      o(vec![i.to_string()])
    }
    "rec_fact" => match st.mgr[&n(0)].get_key_factory(&Network(n(1))) {
      None => o(vec!["none".into()]),
      Some(f) => {
        let s = f.seed_size();
        match f.key_data_from_seed(&unhx(a[2])) {
          Ok(v) => o(vec![f.network().0.to_string(), s.min.to_string(), s.max.to_string(), hx(&v)]),
          Err(e) => R::E("Key".into(), rec::kcause(&e), e.to_string())
        }
      }
    },
    // rec <op> ...: an operation with what its error carries instead of the debug text, and re-entry enabled
    "rec" => {
      if let Some(m) = a.get(1).and_then(|x| x.parse::<u32>().ok()) {
        let kco = matches!(a[0], "pk" | "sign" | "verify");
        rec::INNER.with(|x| x.set(0));
        rec::MGR.with(|x| x.set(if kco { std::ptr::null() } else { st.mgr.get(&m).map(|m| m as *const _).unwrap_or(std::ptr::null()) }));
        rec::KC.with(|x| x.set(if kco { st.kc.get(&m).map(|m| m as *const _).unwrap_or(std::ptr::null()) } else { std::ptr::null() }));
      }
      let n = |i: usize| -> u32 { a[i + 1].parse().unwrap() };
      let b = &a[1..];
      let key = |e: &keychain::Error| match ke(e) {
        R::E(k, d, m) => R::E(k, if matches!(e, keychain::Error::KeyError(_, _)) { rec::cause(e) } else { d }, m),
        r => r
      };
      let r = match a[0] {
        "data_seed" => tri(st.mgr[&n(0)].keychain_data_from_seed(&unhx(b[1]), &ustr(b[2])), |v| ob(&v), key),
        "data_mn" => tri(st.mgr[&n(0)].keychain_data_from_mnemonic(&ustr(b[1]), &ustr(b[2]), lang(b[3])), |v| ob(&v), key),
        "addnet" => tri(st.mgr[&n(0)].add_network(&unhx(b[1]), &ustr(b[2]), Network(n(3))), |v| ob(&v), key),
        "open" => match st.mgr[&n(0)].keychain_from_data(&unhx(b[1]), &ustr(b[2])) {
          Err(e) => key(&e),
          Ok(k) => {
            let mut nets: Vec<u32> = k.networks().iter().map(|x| x.0).collect();
            nets.sort();
            let i = st.id();
            st.kc.insert(i, k);
            o(vec![i.to_string(), csv(&nets)])
          }
        },
        "pk" => tri(st.kc[&n(0)].pub_key(&Network(n(1)), &p5(b[2])), |v| ob(&v), key),
        "sign" => tri(st.kc[&n(0)].sign(&Network(n(1)), &unhx(b[3]), &p5(b[2])), |v| ob(&v), key),
        "verify" => tri(st.kc[&n(0)].verify(&Network(n(1)), &unhx(b[3]), &unhx(b[4]), &p5(b[2])), |b| o(vec![b.to_string()]), key),
        _ => panic!("driver: rec")
      };
      rec::MGR.with(|x| x.set(std::ptr::null()));
      rec::KC.with(|x| x.set(std::ptr::null()));
      r
    }
    // the values inside the last wallet error
    "errvals" => o(vec![VALS.with(|x| x.borrow().clone())]),
    // printed forms of what is not meant to print its secrets, if they have any: manager, keychain, extended key
    "shown" => {
      let x = XPrv::from_data(&unhx(a[2]));
      o(vec![shown!(&st.mgr[&n(0)]), shown!(&st.kc[&n(1)]), x.as_ref().map(|x| shown!(x)).unwrap_or_else(|_| "-".into()), x.as_ref().map(|x| shown!(&x.public())).unwrap_or_else(|_| "-".into())])
    }
    "environ" => ob(std::env::vars_os().map(|(k, v)| format!("{:?}={:?}\n", k, v)).collect::<String>().as_bytes()),
    // ---- dictionaries of the application
    x if x.starts_with("ud_") => st.dicts.run(x, a),
    // ---- key factories
    "f_data" => tri(factory(n(0)).key_data_from_seed(&unhx(a[1])), |v| ob(&v), keyerr),
    "f_open" => tri(factory(n(0)).key_from_data(&unhx(a[1])), |k| o(vec![k.network().0.to_string()]), keyerr),
    "f_pk" => match factory(n(0)).key_from_data(&unhx(a[1])) {
      Err(e) => keyerr(&e),
      Ok(k) => tri(k.pub_key(&p5(a[2])), |v| ob(&v), keyerr)
    },
    "f_sign" => match factory(n(0)).key_from_data(&unhx(a[1])) {
      Err(e) => keyerr(&e),
      Ok(k) => tri(k.sign(&unhx(a[3]), &p5(a[2])), |v| ob(&v), keyerr)
    },
    "f_verify" => match factory(n(0)).key_from_data(&unhx(a[1])) {
      Err(e) => keyerr(&e),
      Ok(k) => tri(k.verify(&unhx(a[3]), &unhx(a[4]), &p5(a[2])), |b| o(vec![b.to_string()]), keyerr)
    },
    "f_size" => {
      let s = factory(n(0)).seed_size();
      o(vec![s.min.to_string(), s.max.to_string(), s.min_words().to_string(), s.max_words().to_string()])
    }
    // a keychain made directly of keys: net:data,...
    "kc_of" => {
      let mut keys: Vec<Box<dyn Key>> = vec![];
      if a[0] != "-" {
        for t in a[0].split(',') {
          let (nn, d) = t.split_once(':').unwrap();
          match factory(nn.parse().unwrap()).key_from_data(&unhx(d)) {
            Ok(k) => keys.push(k),
            Err(e) => return keyerr(&e)
          }
        }
      }
      let i = st.id();
      st.kc.insert(i, Keychain::new(keys));
      o(vec![i.to_string()])
    }
    // ---- key paths
    "kp_parse" => tri(
      GenericKeyPath::from(&ustr(a[0])),
      |p| {
        let t = p.to_string();
        let t2: String = (&p).into();
        o(vec![path5(&p), hx(t.as_bytes()), hx(t2.as_bytes())])
      },
      |e| er("KeyPath", e)
    ),
    "kp_btc" => {
      let (t, x, y, z) = (n(1) == 1, n(2), n(3), n(4));
      let r = match a[0] {
        "44" => bitcoin::KeyPath::bip44(t, x, y, z),
        "49" => bitcoin::KeyPath::bip49(t, x, y, z),
        _ => bitcoin::KeyPath::bip84(t, x, y, z)
      };
      tri(r, |p| o(vec![path5(&p)]), |e| er("KeyPath", e))
    }
    "kp_ada" => tri(cardano::KeyPath::new(n(0), n(1), n(2)), |p| o(vec![path5(&p)]), |e| er("KeyPath", e)),
    "kp_eth" => tri(ethereum::KeyPath::new(n(0)), |p| o(vec![path5(&p)]), |e| er("KeyPath", e)),
    "kp_metamask" => tri(ethereum::KeyPath::new_metamask(n(0)), |p| o(vec![path5(&p)]), |e| er("KeyPath", e)),
    _ => panic!("driver: unknown op {}", op)
  }
}

/// the request and reply streams: fds named by KDRV_FDS ("in,out"), else the standard ones
fn ports() -> (Box<dyn BufRead>, Box<dyn Write>) {
  use std::os::unix::io::FromRawFd;
  match std::env::var("KDRV_FDS") {
    Ok(v) => {
      std::env::remove_var("KDRV_FDS");
      let f: Vec<i32> = v.split(',').map(|x| x.parse().unwrap()).collect();
      let (i, o) = unsafe { (std::fs::File::from_raw_fd(f[0]), std::fs::File::from_raw_fd(f[1])) };
      (Box::new(std::io::BufReader::new(i)), Box::new(std::io::BufWriter::with_capacity(1 << 16, o)))
    }
    Err(_) => (Box::new(std::io::stdin().lock()), Box::new(std::io::BufWriter::with_capacity(1 << 16, std::io::stdout().lock())))
  }
}
fn one(st: &mut St, op: &str, args: &[&str]) -> String {
  match catch_unwind(AssertUnwindSafe(|| run(st, op, args))) {
    Ok(R::O(v)) => {
      let mut s = String::from("O");
      for x in v {
        s.push('\t');
        s.push_str(&x);
      }
      s
    }
    Ok(R::E(k, d, m)) => format!("E\t{}\t{}\t{}", k, hx(d.as_bytes()), hx(m.as_bytes())),
    Err(_) => format!("P\t{}", hx(LAST_PANIC.with(|p| p.borrow().clone()).as_bytes()))
  }
}
/// rep N MODE op args...: the same operation N times.
/// MODE "same": every reply must equal the first; "a-b,c-d": these slices of the first reply field (bytes) must
/// never repeat, nor its length change; "all": no reply repeats.  Reply: number of calls made, first reply; if one is off, its index and text.
fn rep(st: &mut St, a: &[&str]) -> String {
  let n: usize = a[0].parse().expect("driver: rep");
  let all = a[1] == "all";
  let cuts: Vec<(usize, usize)> = if a[1] == "same" || all {
    vec![]
  } else {
    a[1].split(',').map(|c| c.split_once('-').map(|(x, y)| (x.parse().unwrap(), y.parse().unwrap())).unwrap()).collect()
  };
  SEEN.with(|x| rep_in(st, a, n, all, &cuts, &mut x.borrow_mut()))
}
type Seen = std::collections::HashMap<String, std::collections::HashSet<String>>;
thread_local! {
  /// what this process put out so far, by slice
  static SEEN: RefCell<Seen> = Default::default();
}
fn rep_in(st: &mut St, a: &[&str], n: usize, all: bool, cuts: &[(usize, usize)], seen: &mut Seen) -> String {
  let mut first = String::new();
  for i in 0..n {
    let s = one(st, a[2], &a[3..]);
    if i == 0 {
      first = s.clone();
    }
    let mut off = if all { !s.starts_with("O\t") || !seen.entry(a[2].to_string()).or_default().insert(s.clone()) } else if cuts.is_empty() { s != first } else { s.len() != first.len() || !s.starts_with("O\t") };
    if !off {
      for (x, y) in cuts.iter() {
        off |= s.len() < 2 + 2 * y || !seen.entry(format!("{}-{}", x, y)).or_default().insert(s[2 + 2 * x..2 + 2 * y].to_string());
      }
    }
    if off {
      return format!("O\t{}\t{}\t{}\t{}", i, hx(first.as_bytes()), i, hx(s.as_bytes()));
    }
  }
  format!("O\t{}\t{}", n, hx(first.as_bytes()))
}
fn main() {
  std::panic::set_hook(Box::new(|i| {
    let s = i.to_string();
    LAST_PANIC.with(|p| *p.borrow_mut() = s);
  }));
  let mut st = St::default();
  let (mut inp, mut out) = ports();
  let mut line = String::new();
  loop {
    line.clear();
    if inp.read_line(&mut line).unwrap() == 0 {
      break;
    }
    let l = line.trim_end_matches('\n');
    if l == "flush" {
      out.flush().unwrap();
      continue;
    }
    let mut it = l.split('\t');
    let op = it.next().unwrap();
    let args: Vec<&str> = it.collect();
    let s = if op == "rep" { rep(&mut st, &args) } else { one(&mut st, op, &args) };
    out.write_all(s.as_bytes()).unwrap();
    out.write_all(b"\n").unwrap();
    // reply at once unless more requests are already buffered
    out.flush().unwrap();
  }
}
