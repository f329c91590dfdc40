//! Dictionaries as an application would supply them: own words, own separator, recorded lookups.
use super::{be, csv, hx, nums, o, ob, tri, unhx, ustr, R};
use bip39::dictionary::{DefaultDictionary, Error, Language, Result};
use bip39::{Entropy, MnemonicIndex, MnemonicString, Mnemonics, Seed};
use std::cell::RefCell;
use std::collections::HashMap;

pub struct Dict {
  name: &'static str,
  sep: &'static str,
  words: Vec<String>,
  find: HashMap<String, u16>,
  fail: HashMap<String, String>,
  log: RefCell<Vec<String>>,
  asked: RefCell<Vec<u16>>
}
impl Language for Dict {
  fn name(&self) -> &'static str {
    self.name
  }
  fn separator(&self) -> &'static str {
    self.sep
  }
  fn lookup_mnemonic(&self, word: &str) -> Result<MnemonicIndex> {
    self.log.borrow_mut().push(word.to_owned());
    if let Some(m) = self.fail.get(word) {
      return Err(Error::MnemonicWordNotFoundInDictionary(m.clone()));
    }
    self.find.get(word).map(|i| MnemonicIndex(*i)).ok_or_else(|| Error::MnemonicWordNotFoundInDictionary(format!("app:{}", word)))
  }
  fn lookup_word(&self, m: MnemonicIndex) -> Result<String> {
    self.asked.borrow_mut().push(m.0);
    self.words.get(m.0 as usize).cloned().ok_or_else(|| Error::MnemonicWordNotFoundInDictionary(format!("app#{}", m.0)))
  }
}
#[derive(Default)]
pub struct Dicts {
  own: HashMap<u32, Dict>,
  arr: HashMap<u32, DefaultDictionary>
}
fn leak(s: String) -> &'static str {
  Box::leak(s.into_boxed_str())
}
fn list(s: &str) -> Vec<String> {
  if s == "." { vec![] } else { s.split(',').map(ustr).collect() }
}
fn dict_err(e: &Error) -> R {
  super::er("Dict", e)
}
/// calls over any dictionary: the application's own, or the crate's structure filled with own words
fn with<D: Language, T: Language>(d: &D, other: &T, op: &str, a: &[&str]) -> R {
  match op {
    "ud_info" => o(vec![hx(d.name().as_bytes()), hx(d.separator().as_bytes())]),
    "ud_ent" => tri(Entropy::from_slice(&unhx(a[0])), |e| ob(e.to_mnemonics().to_string(d).as_bytes()), be),
    "ud_idx" => tri(
      Mnemonics::from_mnemonics(nums(a[0]).into_iter().map(|x| MnemonicIndex(x as u16)).collect()),
      |m| ob(m.to_string(d).as_bytes()),
      be
    ),
    "ud_word" => ob(MnemonicIndex(a[0].parse().unwrap()).to_word(d).as_bytes()),
    "ud_lookup_word" => tri(d.lookup_word(MnemonicIndex(a[0].parse().unwrap())), |w| ob(w.as_bytes()), dict_err),
    "ud_find" => tri(MnemonicIndex::from_word(d, &ustr(a[0])), |m| o(vec![m.0.to_string()]), be),
    "ud_new" => tri(
      MnemonicString::new(d, ustr(a[0])),
      |m| o(vec![hx(m.as_bytes()), hx(m.to_string().as_bytes()), hx(&Seed::from_mnemonic_string(&m, &unhx(a[1])))]),
      be
    ),
    "ud_parse" => tri(
      Mnemonics::from_string(d, &ustr(a[0])),
      |m| {
        let idx: Vec<u16> = m.as_ref().iter().map(|x| x.0).collect();
        let ent = Entropy::from_mnemonics(&m).map(|e| hx(&e)).unwrap_or_else(|_| "badsum".into());
        o(vec![csv(&idx), ent, m.get_type().to_string(), hx(m.to_string(other).as_bytes())])
      },
      be
    ),
    _ => panic!("driver: unknown op {}", op)
  }
}
impl Dicts {
  pub fn run(&mut self, op: &str, a: &[&str]) -> R {
    let id: u32 = a[0].parse().unwrap();
    match op {
      // id, name, separator, words, word:index overrides, word:message failures
      "ud_set" => {
        let words = list(a[3]);
        let mut find = HashMap::new();
        for (i, w) in words.iter().enumerate() {
          find.entry(w.clone()).or_insert(i as u16);
        }
        let pairs = |s: &str| -> Vec<(String, String)> {
          if s == "." {
            return vec![];
          }
          s.split(',').map(|p| { let v: Vec<&str> = p.split(':').collect(); (ustr(v[0]), v[1].to_owned()) }).collect()
        };
        for (w, i) in pairs(a[4]) {
          find.insert(w, i.parse().unwrap());
        }
        let fail = pairs(a[5]).into_iter().map(|(w, m)| (w, ustr(&m))).collect();
        self.own.insert(
          id,
          Dict { name: leak(ustr(a[1])), sep: leak(ustr(a[2])), words, find, fail, log: Default::default(), asked: Default::default() }
        );
        o(vec![])
      }
      "ud_arr" => {
        let mut words: [&'static str; 2048] = [""; 2048];
        for (i, w) in list(a[2]).into_iter().enumerate() {
          words[i] = leak(w);
        }
        self.arr.insert(id, DefaultDictionary { words, name: leak(ustr(a[1])) });
        o(vec![])
      }
      // the words asked for and the indexes asked for since the last call
      "ud_log" => {
        let d = &self.own[&id];
        let w: Vec<String> = d.log.borrow_mut().drain(..).map(|x| hx(x.as_bytes())).collect();
        let i: Vec<u16> = d.asked.borrow_mut().drain(..).collect();
        o(vec![w.join(","), csv(&i)])
      }
      _ => {
        let other: u32 = a[1].parse().unwrap();
        match (self.own.get(&id), self.own.get(&other)) {
          (Some(d), Some(t)) => with(d, t, op, &a[2..]),
          (Some(d), None) => with(d, &self.arr[&other], op, &a[2..]),
          (None, Some(t)) => with(&self.arr[&id], t, op, &a[2..]),
          (None, None) => with(&self.arr[&id], &self.arr[&other], op, &a[2..])
        }
      }
    }
  }
}
