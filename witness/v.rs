//! Witness vocabulary. The bodies are never executed: the analyser gives each of these its meaning.
#![allow(unused_variables)]
#[inline(never)] pub fn any<T>(name: &str) -> T { loop {} }
#[inline(never)] pub fn within(name: &str, lo: i64, hi: i64) -> i64 { loop {} }
#[inline(never)] pub fn reg(name: &str) -> u64 { loop {} }
#[inline(never)] pub fn idx(name: &str) -> u64 { loop {} }
#[inline(never)] pub fn page_size() -> usize { loop {} }
#[inline(never)] pub fn region_base() -> u64 { loop {} }
#[inline(never)] pub fn disjoint() { loop {} }
#[inline(never)] pub fn region_size() -> u64 { loop {} }
#[inline(never)] pub fn mark() { loop {} }
#[inline(never)] pub fn may_refuse(id: &str) { loop {} }
#[inline(never)] pub fn cap() { loop {} }
#[inline(never)] pub fn cap_range(lo: u64, hi: u64) { loop {} }
#[inline(never)] pub fn start() -> u64 { loop {} }
#[inline(never)] pub fn written() -> u64 { loop {} }
#[inline(never)] pub fn inst(id: &str) { loop {} }
#[inline(never)] pub fn instl(id: &str, label: u64) { loop {} }
#[inline(never)] pub fn oblige(id: &str, c: bool, what: &str) { loop {} }
#[inline(never)] pub fn eq(id: &str, a: u64, b: u64, what: &str) { loop {} }
#[inline(never)] pub fn aligned(id: &str, a: u64, unit: u64, what: &str) { loop {} }
#[inline(never)] pub fn assume(c: bool) { loop {} }
#[inline(never)] pub fn never(id: &str, what: &str) { loop {} }
#[inline(never)] pub fn panics(c: bool) { loop {} }
#[inline(never)] pub fn tick(k: u64) { loop {} }
#[inline(never)] pub fn ticks(id: &str, k: u64, what: &str) { loop {} }
#[inline(never)] pub fn havoc<T>(t: &mut T) { loop {} }
#[inline(never)] pub fn leaves<T>(t: &T) { loop {} }
#[inline(never)] pub fn snap<T>(t: &T) -> u64 { loop {} }
#[inline(never)] pub fn same<T>(id: &str, s: u64, t: &T, what: &str) { loop {} }
#[inline(never)] pub fn same_tables<T>(id: &str, s: u64, t: &T, what: &str) { loop {} }
#[inline(never)] pub fn writes_in(id: &str, lo: u64, hi: u64, what: &str) { loop {} }
#[inline(never)] pub fn confine(id: &str, lo: u64, hi: u64, what: &str) { loop {} }
#[inline(never)] pub fn calm(id: &str, what: &str) { loop {} }
#[inline(never)] pub fn no_writes(id: &str, what: &str) { loop {} }
#[inline(never)] pub fn nwrites() -> u64 { loop {} }
#[inline(never)] pub fn wrote_exactly(id: &str, lo: u64, n: u64, what: &str) { loop {} }
#[inline(never)] pub fn faults() { loop {} }
#[inline(never)] pub fn full_drop() { loop {} }
#[inline(never)] pub fn if_failed_never(id: &str, what: &str) { loop {} }
#[inline(never)] pub fn protected(id: &str, lo: u64, hi: u64, prot: u64, what: &str) { loop {} }
#[inline(never)] pub fn effects() -> u64 { loop {} }
#[inline(never)] pub fn not_freed(id: &str, what: &str) { loop {} }
#[inline(never)] pub fn note(name: &str, v: u64) { loop {} }
#[inline(never)] pub fn dump_ran(id: &str) { loop {} }
#[inline(never)] pub fn dumped_at() -> u64 { loop {} }
#[inline(never)] pub fn dumped_len() -> u64 { loop {} }
