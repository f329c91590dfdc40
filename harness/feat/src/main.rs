//! A Rust application of one feature set of the keychain crate. One request per line, as in kdrv.
use keychain::{Keychain, KeychainManager, Network};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hx(b: &[u8]) -> String {
  if b.is_empty() {
    return "-".into();
  }
  b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhx(s: &str) -> Vec<u8> {
  if s == "-" {
    return vec![];
  }
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn us(s: &str) -> String {
  String::from_utf8(unhx(s)).unwrap()
}
fn err(e: keychain::Error) -> String {
  let d = format!("{:?}", e);
  let k: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
  format!("E\t{}\t{}\t{}", k, hx(d.as_bytes()), hx(e.to_string().as_bytes()))
}
fn bytes(r: Result<Vec<u8>, keychain::Error>) -> String {
  match r {
    Ok(v) => format!("O\t{}", hx(&v)),
    Err(e) => err(e)
  }
}
struct P([u32; 5]);
impl keychain::KeyPath for P {
  fn purpose(&self) -> u32 {
    self.0[0]
  }
  fn coin(&self) -> u32 {
    self.0[1]
  }
  fn account(&self) -> u32 {
    self.0[2]
  }
  fn change(&self) -> u32 {
    self.0[3]
  }
  fn address(&self) -> u32 {
    self.0[4]
  }
}
fn p5(s: &str) -> P {
  let v: Vec<u32> = s.split(',').map(|x| x.parse().unwrap()).collect();
  P([v[0], v[1], v[2], v[3], v[4]])
}
fn nets(mut v: Vec<Network>) -> String {
  v.sort_by_key(|x| x.0);
  v.iter().map(|x| format!("\t{}", x.0)).collect()
}
fn language(n: &str) -> Option<keychain::Language> {
  use keychain::Language::*;
  Some(match n {
    "0" => English,
    "1" => French,
    "2" => Japanese,
    "3" => Korean,
    "4" => ChineseSimplified,
    "5" => ChineseTraditional,
    "6" => Italian,
    "7" => Spanish,
    _ => return None
  })
}
#[derive(Default)]
struct St {
  m: HashMap<u32, KeychainManager>,
  k: HashMap<u32, Keychain>,
  n: u32
}
fn run(st: &mut St, a: &[&str]) -> String {
  let id = |i: usize| -> u32 { a[i].parse().unwrap() };
  match a[0] {
    "info" => {
      let mut s = String::from("O");
      #[cfg(feature = "bitcoin")]
      s.push_str(&format!("\tbitcoin:{}", Network::BITCOIN.0));
      #[cfg(feature = "ethereum")]
      s.push_str(&format!("\tethereum:{}", Network::ETHEREUM.0));
      #[cfg(feature = "cardano")]
      s.push_str(&format!("\tcardano:{}", Network::CARDANO.0));
      if cfg!(feature = "backup") {
        s.push_str("\tbackup:1");
      }
      s
    }
    "all" => format!("O{}", nets(Network::all())),
    "new" | "with" => {
      let r = if a[0] == "new" {
        KeychainManager::new()
      } else {
        let v: Vec<Network> = if a[1] == "-" { vec![] } else { a[1].split(',').map(|x| Network(x.parse().unwrap())).collect() };
        KeychainManager::with_networks(&v)
      };
      match r {
        Ok(m) => {
          let i = st.n;
          st.n += 1;
          st.m.insert(i, m);
          format!("O\t{}", i)
        }
        Err(e) => err(e)
      }
    }
    "mgr_free" => {
      st.m.remove(&id(1));
      "O".into()
    }
    #[cfg(feature = "custom")]
    "factories" => {
      let f: Vec<Box<dyn keychain::KeyFactory>> = keychain::networks::all_networks();
      let mut v: Vec<String> = f.iter().map(|x| format!("{}:{}:{}", x.network().0, x.seed_size().min, x.seed_size().max)).collect();
      v.sort();
      let m = KeychainManager::with_factories(f);
      format!("O\t{}\t{}", v.join(","), m.is_ok())
    }
    "has" => {
      let m = &st.m[&id(1)];
      let n = Network(id(2));
      format!("O\t{}\t{}", m.has_network(&n), m.get_key_factory(&n).is_some())
    }
    "gen" => match st.m[&id(1)].generate_mnemonic(language(a[2])) {
      Ok(s) => format!("O\t{}", hx(s.as_bytes())),
      Err(e) => err(e)
    },
    "data_seed" => bytes(st.m[&id(1)].keychain_data_from_seed(&unhx(a[2]), &us(a[3]))),
    "data_mn" => bytes(st.m[&id(1)].keychain_data_from_mnemonic(&us(a[2]), &us(a[3]), language(a[4]))),
    "chpw" => bytes(st.m[&id(1)].change_password(&unhx(a[2]), &us(a[3]), &us(a[4]))),
    "addnet" => bytes(st.m[&id(1)].add_network(&unhx(a[2]), &us(a[3]), Network(id(4)))),
    "open" => match st.m[&id(1)].keychain_from_data(&unhx(a[2]), &us(a[3])) {
      Err(e) => err(e),
      Ok(k) => {
        let i = st.n;
        st.n += 1;
        let s = format!("O\t{}{}", i, nets(k.networks()));
        st.k.insert(i, k);
        s
      }
    },
    "kc_free" => {
      st.k.remove(&id(1));
      "O".into()
    }
    "pk" => bytes(st.k[&id(1)].pub_key(&Network(id(2)), &p5(a[3]))),
    "sign" => bytes(st.k[&id(1)].sign(&Network(id(2)), &unhx(a[4]), &p5(a[3]))),
    "verify" => match st.k[&id(1)].verify(&Network(id(2)), &unhx(a[4]), &unhx(a[5]), &p5(a[3])) {
      Ok(b) => format!("O\t{}", b),
      Err(e) => err(e)
    },
    "parse" => match keychain::GenericKeyPath::from(&us(a[1])) {
      Ok(p) => {
        use keychain::KeyPath;
        format!("O\t{},{},{},{},{}", p.purpose(), p.coin(), p.account(), p.change(), p.address())
      }
      Err(e) => format!("E\tKeyPathError\t-\t{}", hx(e.to_string().as_bytes()))
    },
    #[cfg(feature = "backup")]
    "keys_data" => match st.m[&id(1)].get_keys_data(&unhx(a[2]), &us(a[3])) {
      Ok(v) => format!("O{}", v.iter().map(|(n, d)| format!("\t{}:{}", n.0, hx(d))).collect::<String>()),
      Err(e) => err(e)
    },
    #[cfg(feature = "backup")]
    "retr_mn" => match st.m[&id(1)].retrieve_mnemonic(&unhx(a[2]), &us(a[3])) {
      Ok((m, l)) => {
        use keychain::Language::*;
        let n = match l {
          English => 0,
          French => 1,
          Japanese => 2,
          Korean => 3,
          ChineseSimplified => 4,
          ChineseTraditional => 5,
          Italian => 6,
          Spanish => 7
        };
        format!("O\t{}\t{}", hx(m.as_bytes()), n)
      }
      Err(e) => err(e)
    },
    _ => "X".into()
  }
}
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let mut st = St::default();
  let i = std::io::stdin();
  let mut out = std::io::stdout();
  for l in i.lock().lines() {
    let l = l.unwrap();
    let a: Vec<&str> = l.split('\t').collect();
    let s = catch_unwind(AssertUnwindSafe(|| run(&mut st, &a))).unwrap_or_else(|e| {
      let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
      format!("P\t{}", hx(m.as_bytes()))
    });
    out.write_all(s.as_bytes()).unwrap();
    out.write_all(b"\n").unwrap();
    out.flush().unwrap();
  }
}
