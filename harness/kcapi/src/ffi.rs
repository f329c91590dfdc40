//! The C interface as a C caller sees it (own declarations, taken from the header).
#![allow(non_snake_case)]
use std::os::raw::{c_char, c_int, c_void};
extern crate rust_keychain as _;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Data {
  pub ptr: *const u8,
  pub len: usize
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Err {
  pub code: c_int,
  pub msg: *const c_char
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Elem {
  pub net: u32,
  pub data: Data
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Backup {
  pub ptr: *const Elem,
  pub count: usize
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Info {
  pub mn: *const c_char,
  pub lang: c_int
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Nets {
  pub ptr: *const u32,
  pub count: usize
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Path {
  pub v: [u32; 5]
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct H(pub *mut c_void);
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Net(pub u32);
pub type S = *const c_char;

extern "C" {
  pub fn keychain_init_library();
  pub fn NETWORK_BITCOIN() -> Net;
  pub fn NETWORK_CARDANO() -> Net;
  pub fn NETWORK_ETHEREUM() -> Net;
  pub fn keychain_manager_new(m: *mut H, e: *mut Err) -> bool;
  pub fn keychain_manager_has_network(m: *const H, n: Net, has: *mut bool, e: *mut Err) -> bool;
  pub fn keychain_manager_generate_mnemonic(m: *const H, lang: c_int, out: *mut S, e: *mut Err) -> bool;
  pub fn keychain_manager_keychain_data_from_seed(m: *const H, seed: *const u8, len: usize, pw: S, out: *mut Data, e: *mut Err) -> bool;
  pub fn keychain_manager_keychain_data_from_mnemonic(m: *const H, mn: S, pw: S, lang: c_int, out: *mut Data, e: *mut Err) -> bool;
  pub fn keychain_manager_keychain_from_data(m: *const H, d: *const u8, len: usize, pw: S, out: *mut H, e: *mut Err) -> bool;
  pub fn keychain_manager_add_network(m: *const H, d: *const u8, len: usize, pw: S, n: Net, out: *mut Data, e: *mut Err) -> bool;
  pub fn keychain_manager_change_password(m: *const H, d: *const u8, len: usize, old: S, new: S, out: *mut Data, e: *mut Err) -> bool;
  pub fn keychain_manager_get_keys_data(m: *const H, d: *const u8, len: usize, pw: S, out: *mut Backup, e: *mut Err) -> bool;
  pub fn keychain_manager_retrieve_mnemonic(m: *const H, d: *const u8, len: usize, pw: S, out: *mut Info, e: *mut Err) -> bool;
  pub fn keychain_networks(k: *const H, out: *mut Nets, e: *mut Err) -> bool;
  pub fn keychain_pub_key(k: *const H, n: Net, p: Path, out: *mut Data, e: *mut Err) -> bool;
  pub fn keychain_sign(k: *const H, n: Net, d: *const u8, len: usize, p: Path, out: *mut Data, e: *mut Err) -> bool;
  pub fn keychain_verify(k: *const H, n: Net, d: *const u8, len: usize, s: *const u8, slen: usize, p: Path, out: *mut bool, e: *mut Err) -> bool;
  pub fn keypath_from_string(s: S, out: *mut Path, e: *mut Err) -> bool;
  pub fn keypath_bitcoin_new_bip44(t: bool, a: u32, c: u32, d: u32, out: *mut Path, e: *mut Err) -> bool;
  pub fn keypath_bitcoin_new_bip49(t: bool, a: u32, c: u32, d: u32, out: *mut Path, e: *mut Err) -> bool;
  pub fn keypath_bitcoin_new_bip84(t: bool, a: u32, c: u32, d: u32, out: *mut Path, e: *mut Err) -> bool;
  pub fn keypath_cardano_new(a: u32, c: u32, d: u32, out: *mut Path, e: *mut Err) -> bool;
  pub fn keypath_ethereum_new(a: u32, out: *mut Path, e: *mut Err) -> bool;
  pub fn keypath_ethereum_new_metamask(a: u32, out: *mut Path, e: *mut Err) -> bool;
  pub fn delete_keychain_manager(m: *mut H);
  pub fn delete_keychain(k: *mut H);
  pub fn delete_data(d: *mut Data);
  pub fn delete_string(s: S);
  pub fn delete_networks(n: *mut Nets);
  pub fn delete_error(e: *mut Err);
  pub fn delete_key_backup(b: *mut Backup);
  pub fn delete_mnemonic_info(i: *mut Info);
}
