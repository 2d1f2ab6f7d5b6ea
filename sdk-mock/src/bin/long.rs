// Written by tools/sdkgen.py.
#![allow(warnings)]
use svm_sdk_mock::{template, Address, Amount};
use svm_sdk_conf::*;

#[template]
mod Long {
    #[storage]
    struct Storage {
        f0: [u8; 40],
        f1: svm_sdk::Address,
        f2: [Amount; 33],
        f3: bool,
        f4: [Address; 17],
        f5: u16,
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn read_f0(i: u32) -> u8 { Storage::get_f0(i as usize) }
    #[endpoint]
    fn write_f0(i: u32, v: u8) { Storage::set_f0(i as usize, v); }
    #[endpoint]
    fn read_f1() -> Address { Storage::get_f1() }
    #[endpoint]
    fn write_f1(v: Address) { Storage::set_f1(&v); }
    #[endpoint]
    fn read_f2(i: u32) -> Amount { Storage::get_f2(i as usize) }
    #[endpoint]
    fn write_f2(i: u32, v: Amount) { Storage::set_f2(i as usize, v); }
    #[endpoint]
    fn read_f3() -> bool { Storage::get_f3() }
    #[endpoint]
    fn write_f3(v: bool) { Storage::set_f3(v); }
    #[endpoint]
    fn read_f4(i: u32) -> Address { Storage::get_f4(i as usize) }
    #[endpoint]
    fn write_f4(i: u32, v: Address) { Storage::set_f4(i as usize, &v); }
    #[endpoint]
    fn read_f5() -> u16 { Storage::get_f5() }
    #[endpoint]
    fn write_f5(v: u16) { Storage::set_f5(v); }
}


fn get(f: usize, i: usize) -> Vec<u8> {
    match f {
        0 => Storage::get_f0(i).bytes(),
        1 => Storage::get_f1().bytes(),
        2 => Storage::get_f2(i).bytes(),
        3 => Storage::get_f3().bytes(),
        4 => Storage::get_f4(i).bytes(),
        5 => Storage::get_f5().bytes(),
        _ => unreachable!(),
    }
}

fn set(f: usize, i: usize, v: &[u8]) {
    match f {
        0 => Storage::set_f0(i, <u8>::of(v)),
        1 => Storage::set_f1(&<Address as Cell>::of(v)),
        2 => Storage::set_f2(i, <Amount>::of(v)),
        3 => Storage::set_f3(<bool>::of(v)),
        4 => Storage::set_f4(i, &<Address as Cell>::of(v)),
        5 => Storage::set_f5(<u16>::of(v)),
        _ => unreachable!(),
    }
}

fn main() {
    run(get, set, raw_meta);
}
