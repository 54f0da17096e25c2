//! Known finding of C08: the zero-copy view of a block can be obtained, in safe code, with a lifetime longer than the
//! buffer it looks into (read_from_slice of the generated view types). Built with the address sanitizer by check.py.
#![forbid(unsafe_code)]
use brec::prelude::*;
#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct Probe { pub blob: [u8; 64] }
brec::generate!();

fn outlive() -> ProbeReferred<'static> {
    let mut v = Vec::new();
    Probe { blob: [7; 64] }.write_all(&mut v).unwrap();
    <ProbeReferred<'static> as ReadBlockFromSlice>::read_from_slice(&v, false).unwrap()
}
fn main() {
    let view = outlive();
    let s: u64 = view.blob.iter().map(|b| *b as u64).sum();
    println!("{s}");
}
