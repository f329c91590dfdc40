//! Threads sharing one manager and one keychain handle; every answer is compared with the one
//! a sequential call gives, random values are collected and must never repeat.
use crate::ffi::*;
use crate::{call, cstr, data, hx, path, unhx, Res};
use std::collections::HashSet;
use std::ffi::CString;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier};

struct Rng(u64);
impl Rng {
  fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ z >> 30).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ z >> 27).wrapping_mul(0x94D049BB133111EB);
    z ^ z >> 31
  }
  fn below(&mut self, n: usize) -> usize {
    (self.next() % n as u64) as usize
  }
}
#[derive(Clone, Copy)]
struct Hs(H, H);
unsafe impl Send for Hs {}
unsafe impl Sync for Hs {}

#[derive(Clone, Debug)]
enum Op {
  Pk(u32, Path),
  Sign(u32, Path, Vec<u8>),
  Verify(u32, Path, Vec<u8>, Vec<u8>),
  Nets,
  Has(u32),
  KpStr(Vec<u8>),
  KpBtc(u32, u32, u32),
  Gen(i32),
  DataSeed(Vec<u8>),
  DataMn,
  Phrase(i32, CString),
  Open(bool),
  Chpw,
  AddNet(u32),
  Keys,
  Retr,
  /// wallet of another password: its keys, its keychain, or with the password of yet another wallet
  Other(usize, u8),
  NullMgr,
  NullKc,
  BadUtf8
}
struct Env {
  hs: Hs,
  wallet: Vec<u8>,
  part: Vec<u8>,
  mn_wallet: Vec<u8>,
  phrase: CString,
  pw: CString,
  bad: CString,
  others: Vec<(Vec<u8>, CString)>,
  utf8: CString
}
/// (deterministic result, random values)
type Ans = Result<(String, Vec<Vec<u8>>), String>;
unsafe fn fin<T: Copy>(r: Res<T>, ok: impl FnOnce(T) -> (String, Vec<Vec<u8>>)) -> Ans {
  match r {
    Res::Bad(w) => Err(w),
    Res::Ok(v) => Ok(ok(v)),
    Res::Err(mut e) => {
      let s = format!("E {} {}", e.code, hx(&cstr(e.msg)));
      delete_error(&mut e);
      if e.msg.is_null() {
        Ok((s, vec![]))
      } else {
        Err("delete leaves the pointer in place".into())
      }
    }
  }
}
unsafe fn blob(e: &Env, m: &H, mut d: Data, pw: &CString) -> (String, Vec<Vec<u8>>) {
  let b = data(&d);
  delete_data(&mut d);
  if b.len() < 60 {
    return ("short sealed data".into(), vec![]);
  }
  // the new data must open again and hold the same keys
  let s = match keys(m, &b, pw) {
    Ok((s, _)) => s,
    Err(w) => w
  };
  let _ = e;
  (s, vec![b[..32].to_vec(), b[32..44].to_vec()])
}
unsafe fn keys(m: &H, b: &[u8], pw: &CString) -> Ans {
  fin(call::<Backup>(|o, e| keychain_manager_get_keys_data(m, b.as_ptr(), b.len(), pw.as_ptr(), o, e)), |mut k| {
    let mut v: Vec<String> = std::slice::from_raw_parts(k.ptr, k.count).iter().map(|x| format!("{}:{}", x.net, hx(&data(&x.data)))).collect();
    delete_key_backup(&mut k);
    v.sort();
    (v.join(","), vec![])
  })
}
unsafe fn exec(e: &Env, op: &Op) -> Ans {
  let (m, k) = (&e.hs.0, &e.hs.1);
  let bytes = |mut d: Data| {
    let s = hx(&data(&d));
    delete_data(&mut d);
    (s, vec![])
  };
  let kp = |p: Path| (format!("{:?}", p.v), vec![]);
  let nul = H(std::ptr::null_mut());
  match op {
    Op::Pk(n, p) => fin(call(|o, r| keychain_pub_key(k, Net(*n), *p, o, r)), bytes),
    Op::Sign(n, p, d) => fin(call(|o, r| keychain_sign(k, Net(*n), d.as_ptr(), d.len(), *p, o, r)), bytes),
    Op::Verify(n, p, d, s) => fin(call::<u8>(|o, r| keychain_verify(k, Net(*n), d.as_ptr(), d.len(), s.as_ptr(), s.len(), *p, o as *mut bool, r)), |b| (b.to_string(), vec![])),
    Op::Nets => fin(call::<Nets>(|o, r| keychain_networks(k, o, r)), |mut n| {
      let mut v = std::slice::from_raw_parts(n.ptr, n.count).to_vec();
      v.sort();
      delete_networks(&mut n);
      (format!("{:?}", v), vec![])
    }),
    Op::Has(n) => fin(call::<u8>(|o, r| keychain_manager_has_network(m, Net(*n), o as *mut bool, r)), |b| (b.to_string(), vec![])),
    Op::KpStr(s) => {
      let c = CString::new(s.clone()).unwrap();
      fin(call(|o, r| keypath_from_string(c.as_ptr(), o, r)), kp)
    }
    Op::KpBtc(a, b, c) => fin(call(|o, r| keypath_bitcoin_new_bip49(false, *a, *b, *c, o, r)), kp),
    Op::Gen(l) => fin(call::<S>(|o, r| keychain_manager_generate_mnemonic(m, *l, o, r)), |s| {
      let v = cstr(s);
      delete_string(s);
      let words = String::from_utf8_lossy(&v).split(' ').count();
      // the phrase must be usable
      let c = CString::new(v.clone()).unwrap();
      let x = match call::<Data>(|o, r| keychain_manager_keychain_data_from_mnemonic(m, c.as_ptr(), e.pw.as_ptr(), *l, o, r)) {
        Res::Ok(mut d) => {
          let b = data(&d);
          delete_data(&mut d);
          Some(b)
        }
        Res::Err(mut er) => {
          delete_error(&mut er);
          None
        }
        Res::Bad(_) => None
      };
      match x {
        Some(b) => (format!("{} words", words), vec![v, b[..32].to_vec(), b[32..44].to_vec()]),
        None => ("generated phrase is refused".into(), vec![v])
      }
    }),
    Op::DataSeed(sd) => fin(call(|o, r| keychain_manager_keychain_data_from_seed(m, sd.as_ptr(), sd.len(), e.pw.as_ptr(), o, r)), |d| blob(e, m, d, &e.pw)),
    Op::DataMn => fin(call(|o, r| keychain_manager_keychain_data_from_mnemonic(m, e.phrase.as_ptr(), e.pw.as_ptr(), 0, o, r)), |d| blob(e, m, d, &e.pw)),
    Op::Phrase(l, c) => fin(call(|o, r| keychain_manager_keychain_data_from_mnemonic(m, c.as_ptr(), e.pw.as_ptr(), *l, o, r)), |d| blob(e, m, d, &e.pw)),
    Op::Open(good) => {
      let p = if *good { &e.pw } else { &e.bad };
      fin(call::<H>(|o, r| keychain_manager_keychain_from_data(m, e.wallet.as_ptr(), e.wallet.len(), p.as_ptr(), o, r)), |mut h| {
        let n = match call::<Data>(|o, r| keychain_pub_key(&h, NETWORK_ETHEREUM(), path("2147483692,2147483708,2147483648,0,7"), o, r)) {
          Res::Ok(d) => bytes(d).0,
          _ => "cannot use the opened keychain".into()
        };
        delete_keychain(&mut h);
        (n, vec![])
      })
    }
    Op::Chpw => fin(call(|o, r| keychain_manager_change_password(m, e.wallet.as_ptr(), e.wallet.len(), e.pw.as_ptr(), e.bad.as_ptr(), o, r)), |d| blob(e, m, d, &e.bad)),
    Op::AddNet(n) => fin(call(|o, r| keychain_manager_add_network(m, e.part.as_ptr(), e.part.len(), e.pw.as_ptr(), Net(*n), o, r)), |d| blob(e, m, d, &e.pw)),
    Op::Keys => keys(m, &e.wallet, &e.pw),
    Op::Retr => fin(call::<Info>(|o, r| keychain_manager_retrieve_mnemonic(m, e.mn_wallet.as_ptr(), e.mn_wallet.len(), e.pw.as_ptr(), o, r)), |mut i| {
      let s = format!("{} {}", i.lang, hx(&cstr(i.mn)));
      delete_mnemonic_info(&mut i);
      (s, vec![])
    }),
    Op::Other(i, kind) => {
      let (w, p) = &e.others[*i];
      match kind {
        0 => keys(m, w, p),
        1 => keys(m, w, &e.others[(i + 1) % e.others.len()].1),
        _ => fin(call::<H>(|o, r| keychain_manager_keychain_from_data(m, w.as_ptr(), w.len(), p.as_ptr(), o, r)), |mut h| {
          let n = match call::<Data>(|o, r| keychain_pub_key(&h, NETWORK_BITCOIN(), path("2147483692,2147483648,2147483648,0,7"), o, r)) {
            Res::Ok(d) => bytes(d).0,
            _ => "cannot use the opened keychain".into()
          };
          delete_keychain(&mut h);
          (n, vec![])
        })
      }
    }
    Op::NullMgr => fin(call::<S>(|o, r| keychain_manager_generate_mnemonic(&nul, 0, o, r)), |_| ("accepted".into(), vec![])),
    Op::NullKc => fin(call::<Nets>(|o, r| keychain_networks(&nul, o, r)), |_| ("accepted".into(), vec![])),
    Op::BadUtf8 => fin(call::<Data>(|o, r| keychain_manager_keychain_data_from_mnemonic(m, e.utf8.as_ptr(), e.pw.as_ptr(), 0, o, r)), |_| ("accepted".into(), vec![]))
  }
}
/// args: wallet part mn_wallet phrase pw(hex each) threads ops seed delay(0..3) faulty(0|1)
pub fn run(m: H, k: H, a: &[&str]) -> Result<Vec<String>, String> {
  let num = |i: usize| -> u64 { a[i].parse().unwrap() };
  let mut env = Env {
    others: vec![],
    hs: Hs(m, k),
    wallet: unhx(a[0]),
    part: unhx(a[1]),
    mn_wallet: unhx(a[2]),
    phrase: CString::new(unhx(a[3])).unwrap(),
    pw: CString::new(unhx(a[4])).unwrap(),
    bad: CString::new("another one").unwrap(),
    utf8: CString::new(vec![b'a', 0xff, 0xfe]).unwrap()
  };
  let (threads, nops, seed, delay, faulty) = (num(5) as usize, num(6) as usize, num(7), num(8), num(9) == 1);
  let mut rng = Rng(seed);
  // cold: no answer is computed before the threads run, so that every first use is a concurrent one
  let cold = a.len() > 10;
  if !faulty && !cold {
    for i in 0..5 {
      let sd: Vec<u8> = (0..64).map(|_| rng.next() as u8).collect();
      let p = CString::new(if i < 3 { format!("{} {:x}", i, rng.next()) } else { format!("pässword of wallet {}", i) }).unwrap();
      match unsafe { call::<Data>(|o, r| keychain_manager_keychain_data_from_seed(&m, sd.as_ptr(), sd.len(), p.as_ptr(), o, r)) } {
        Res::Ok(mut d) => unsafe {
          env.others.push((data(&d), p));
          delete_data(&mut d);
        },
        Res::Err(_) => return Err("a wallet can't be created".into()),
        Res::Bad(w) => return Err(w)
      }
    }
  }
  let env = Arc::new(env);
  // a pool of operations with their sequential answers
  let mut pool: Vec<(Op, String)> = vec![];
  let nets = unsafe { [NETWORK_BITCOIN().0, NETWORK_CARDANO().0, NETWORK_ETHEREUM().0] };
  let mut ops = vec![Op::Nets, Op::DataMn, Op::Open(true), Op::Open(false), Op::Chpw, Op::Keys, Op::Retr, Op::NullMgr, Op::NullKc, Op::BadUtf8, Op::AddNet(nets[1]), Op::AddNet(nets[0]), Op::AddNet(5)];
  for i in 0..40 {
    let n = nets[rng.below(3)];
    let p = if i % 9 == 8 { Path { v: [44, n, 1, 2, 3] } } else { Path { v: [0x8000002c, n, 0x80000000 + rng.below(1 << 31) as u32, rng.below(2) as u32, rng.below(1 << 31) as u32] } };
    let d: Vec<u8> = (0..rng.below(200)).map(|_| rng.next() as u8).collect();
    ops.push(match i % 8 {
      0 | 5 => Op::Pk(n, p),
      1 => Op::Sign(n, p, d),
      2 => {
        let s = match if cold { Err("".into()) } else { unsafe { exec(&env, &Op::Sign(n, p, d.clone())) } } {
          Ok((s, _)) if !s.starts_with("E ") => unhx(&s),
          _ => vec![1; 64]
        };
        Op::Verify(n, p, d, s)
      }
      3 => Op::Verify(n, p, d, vec![7; if i % 16 == 3 { 64 } else { 13 }]),
      4 => Op::Has(if i % 16 == 4 { n } else { rng.next() as u32 }),
      6 => Op::KpStr(format!("m/44'/60'/{}'/0/{}{}", rng.below(1 << 31), rng.below(1 << 31), if i % 16 == 6 { "" } else { "é" }).into_bytes()),
      _ => Op::KpBtc(rng.below(1 << 31) as u32, (i % 3) as u32, rng.next() as u32)
    });
  }
  for l in 0..8 {
    ops.push(Op::Gen(l));
  }
  for _ in 0..4 {
    ops.push(Op::DataSeed((0..64).map(|_| rng.next() as u8).collect()));
  }
  for i in 0..env.others.len() {
    for k in 0..3 {
      ops.push(Op::Other(i, k));
    }
  }
  if cold {
    for (l, p) in a[10].split(',').enumerate() {
      ops.push(Op::Phrase(l as i32, CString::new(unhx(p)).unwrap()));
    }
    if k.0.is_null() {
      ops.retain(|o| !matches!(o, Op::Pk(..) | Op::Sign(..) | Op::Verify(..) | Op::Nets));
    }
    return run_cold(env, ops, threads, seed);
  }
  let mut fresh: HashSet<Vec<u8>> = HashSet::new();
  let mut nfresh = 0u64;
  if !faulty {
    for op in ops {
      let (s, f) = unsafe { exec(&env, &op) }?;
      for x in f {
        nfresh += 1;
        if !fresh.insert(x) {
          return Err("a random value repeats between sequential calls".into());
        }
      }
      pool.push((op, s));
    }
  } else {
    pool = ops.into_iter().map(|o| (o, String::new())).collect();
  }
  let pool = Arc::new(pool);
  let seq = Arc::new(AtomicU64::new(0));
  let flight = Arc::new(AtomicI64::new(0));
  let maxf = Arc::new(AtomicI64::new(0));
  let stop = Arc::new(AtomicBool::new(false));
  let bar = Arc::new(Barrier::new(threads));
  let mut hs = vec![];
  for t in 0..threads {
    let (env, pool, seq, flight, maxf, bar, stop) = (env.clone(), pool.clone(), seq.clone(), flight.clone(), maxf.clone(), bar.clone(), stop.clone());
    let mut rng = Rng(seed ^ (t as u64 + 1).wrapping_mul(0xD1B54A32D192ED03));
    hs.push(std::thread::spawn(move || -> Result<(Vec<(u64, u8)>, Vec<Vec<u8>>, u64, u64), String> {
      let (mut log, mut fr, mut errs, mut panics) = (vec![], vec![], 0u64, 0u64);
      bar.wait();
      for i in 0..nops {
        if stop.load(Relaxed) {
          break;
        }
        // phases in which all threads hit the same operation, or only random-drawing ones
        let (op, want) = match (i / 16) % 4 {
          1 => &pool[((seed as usize).wrapping_add(i / 16)) % pool.len()],
          2 => {
            let l: Vec<_> = pool.iter().filter(|x| matches!(x.0, Op::Gen(_) | Op::DataSeed(_) | Op::Chpw | Op::DataMn)).collect();
            l[rng.below(l.len())]
          }
          // two or three operations that all threads alternate between; the readers of wallets more often
          3 => {
            let mut hot = Rng(seed.wrapping_add(i as u64 / 16));
            let l: Vec<_> = if hot.below(3) > 0 { pool.iter().filter(|x| matches!(x.0, Op::Other(..) | Op::Open(_) | Op::Keys | Op::Retr)).collect() } else { pool.iter().collect() };
            let (n, mut k) = (2 + hot.below(2), rng.below(3));
            k %= n;
            let mut pick = 0;
            for _ in 0..=k {
              pick = hot.below(l.len());
            }
            l[pick]
          }
          _ => &pool[rng.below(pool.len())]
        };
        match delay {
          1 => std::thread::yield_now(),
          2 => {
            for _ in 0..rng.below(3000) {
              std::hint::spin_loop()
            }
          }
          3 => {
            if rng.below(8) == 0 {
              std::thread::sleep(std::time::Duration::from_micros(rng.below(300) as u64))
            }
          }
          _ => {}
        }
        log.push((seq.fetch_add(1, Relaxed), t as u8));
        let f = flight.fetch_add(1, Relaxed) + 1;
        maxf.fetch_max(f, Relaxed);
        let r = unsafe { exec(&env, op) };
        flight.fetch_sub(1, Relaxed);
        match r {
          Err(w) => {
            stop.store(true, Relaxed);
            return Err(format!("{:?}: {}", op, w));
          }
          Ok((s, f)) => {
            if s.starts_with("E ") {
              errs += 1;
              if s.starts_with("E -1 ") {
                panics += 1;
              }
            }
            if !faulty && s != *want {
              stop.store(true, Relaxed);
              return Err(format!("{:?}: concurrent answer {} differs from the sequential one {}", op, s, want));
            }
            fr.extend(f);
          }
        }
      }
      Ok((log, fr, errs, panics))
    }));
  }
  let (mut log, mut errs, mut panics, mut bad) = (vec![], 0, 0, None);
  for h in hs {
    match h.join() {
      Err(_) => bad = Some("a thread panicked: the library unwinds into its caller".to_string()),
      Ok(Err(w)) => bad = Some(w),
      Ok(Ok((l, f, e, p))) => {
        log.extend(l);
        errs += e;
        panics += p;
        for x in f {
          nfresh += 1;
          if !fresh.insert(x.clone()) && bad.is_none() {
            bad = Some(format!("a random value drawn concurrently repeats: {}", hx(&x)));
          }
        }
      }
    }
  }
  if let Some(w) = bad {
    return Err(w);
  }
  log.sort();
  let mut h: u64 = 0xcbf29ce484222325;
  let mut switches = 0u64;
  for (i, x) in log.iter().enumerate() {
    h = (h ^ x.1 as u64).wrapping_mul(0x100000001b3);
    if i > 0 && log[i - 1].1 != x.1 {
      switches += 1;
    }
  }
  Ok(vec![log.len().to_string(), format!("{:016x}", h), switches.to_string(), maxf.load(Relaxed).to_string(), nfresh.to_string(), errs.to_string(), panics.to_string()])
}

/// every operation once by all threads at the same moment, in a random order; the sequential answers come last
fn run_cold(env: Arc<Env>, mut ops: Vec<Op>, threads: usize, seed: u64) -> Result<Vec<String>, String> {
  let mut rng = Rng(seed ^ 0x5bd1e995);
  for i in (1..ops.len()).rev() {
    ops.swap(i, rng.below(i + 1));
  }
  let ops = Arc::new(ops);
  let bar = Arc::new(Barrier::new(threads));
  let seq = Arc::new(AtomicU64::new(0));
  let hs: Vec<_> = (0..threads)
    .map(|t| {
      let (env, ops, bar, seq) = (env.clone(), ops.clone(), bar.clone(), seq.clone());
      let mut rng = Rng(seed ^ (t as u64 + 1).wrapping_mul(0xD1B54A32D192ED03));
      std::thread::spawn(move || {
        let mut out = vec![];
        for op in ops.iter() {
          bar.wait();
          for _ in 0..rng.below(400) * rng.below(2) {
            std::hint::spin_loop()
          }
          let n = seq.fetch_add(1, Relaxed);
          let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { exec(&env, op) }));
          out.push((n, r.unwrap_or_else(|_| Err("unwinds into its caller".into()))));
        }
        out
      })
    })
    .collect();
  let mut all = vec![];
  let mut bad = None;
  for h in hs {
    match h.join() {
      Ok(v) => all.push(v),
      Err(_) => bad = Some("a thread panicked: the library unwinds into its caller".to_string())
    }
  }
  if let Some(w) = bad {
    return Err(w);
  }
  let (mut fresh, mut n, mut order, mut errs) = (HashSet::new(), 0u64, vec![], 0u64);
  let mut take = |f: Vec<Vec<u8>>, op: &Op| -> Result<(), String> {
    for x in f {
      n += 1;
      if !fresh.insert(x) {
        return Err(format!("{:?}: a random value drawn concurrently repeats", op));
      }
    }
    Ok(())
  };
  for (i, op) in ops.iter().enumerate() {
    let (want, f) = unsafe { exec(&env, op) }?;
    take(f, op)?;
    for (t, v) in all.iter_mut().enumerate() {
      let (k, r) = &mut v[i];
      order.push((*k, t));
      match r {
        Err(w) => return Err(format!("{:?}: {}", op, w)),
        Ok((s, f)) => {
          errs += s.starts_with("E ") as u64;
          if *s != want {
            return Err(format!("{:?}: the answer {} of one of the first, concurrent calls differs from the later one {}", op, s, want));
          }
          take(std::mem::take(f), op)?;
        }
      }
    }
  }
  order.sort();
  let (mut h, mut switches) = (0xcbf29ce484222325u64, 0);
  for (i, x) in order.iter().enumerate() {
    h = (h ^ x.1 as u64).wrapping_mul(0x100000001b3);
    switches += (i > 0 && order[i - 1].1 != x.1) as u64;
  }
  Ok(vec![order.len().to_string(), format!("{:016x}", h), switches.to_string(), threads.to_string(), n.to_string(), errs.to_string(), "0".into()])
}
