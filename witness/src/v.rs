//! Analysis intrinsics: recognised by name, never executed.
use unicode_intervals::{UnicodeCategory, UnicodeCategorySet, UnicodeVersion};
pub fn prove(_c: bool, _msg: &'static str) { loop {} }
pub fn assume(_c: bool) { loop {} }
pub fn unreachable(_msg: &'static str) -> ! { loop {} }
pub fn nondet_bool() -> bool { loop {} }
pub fn fork() -> bool { loop {} }
pub fn nondet_u32() -> u32 { loop {} }
pub fn nondet_usize() -> usize { loop {} }
pub fn nondet_char() -> char { loop {} }
pub fn obs_c() -> u32 { loop {} }
pub fn obs_category() -> UnicodeCategory { loop {} }
pub fn any_category() -> UnicodeCategory { loop {} }
pub fn the_version() -> UnicodeVersion { loop {} }
pub fn param() -> u32 { loop {} }
pub fn any_str(_has: bool) -> &'static str { loop {} }
pub fn any_canonical(_has: bool) -> Vec<(u32, u32)> { loop {} }
pub fn any_intervals(_has: bool) -> Vec<(u32, u32)> { loop {} }
pub fn has(_v: &[(u32, u32)]) -> bool { loop {} }
pub fn canonical(_v: &[(u32, u32)]) -> bool { loop {} }
pub fn bounded(_v: &[(u32, u32)], _max: u32) -> bool { loop {} }
pub fn has_cat(_v: &[UnicodeCategory]) -> bool { loop {} }
pub fn str_has(_s: &str) -> bool { loop {} }
// the crate's own functions of these names (engine/contracts.py)
pub fn t_merge(_x: &mut Vec<(u32, u32)>) { loop {} }
pub fn t_subtract(_x: Vec<(u32, u32)>, _y: &[(u32, u32)]) -> Vec<(u32, u32)> { loop {} }
pub fn t_from_str(_s: &str) -> Vec<(u32, u32)> { loop {} }
pub fn t_extend_clamped(_out: &mut Vec<(u32, u32)>, _table: &[(u32, u32)], _lo: u32, _hi: u32) { loop {} }
pub fn t_range_mask(_lo: u32, _hi: u32) -> [u64; 4] { loop {} }
pub fn t_extract_intervals(_bits: &[u64; 4]) -> Vec<(u32, u32)> { loop {} }
pub fn any_mask(_has: bool) -> [u64; 4] { loop {} }
pub fn mask_has(_m: &[u64; 4]) -> bool { loop {} }
pub fn t_set_new(_v: Vec<(u32, u32)>) -> unicode_intervals::IntervalSet { loop {} }
pub fn any_around(_prev: bool, _has: bool, _next: bool) -> Vec<(u32, u32)> { loop {} }
pub fn around() -> usize { loop {} }
pub fn exported<T>(_name: &str) -> Option<&'static T> { loop {} }
pub fn exports() -> usize { loop {} }
pub fn lazy<E>(_e: &mut E) -> Vec<String> { loop {} }
