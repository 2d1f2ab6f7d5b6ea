// Written by tools/sdkgen.py.
#![allow(warnings)]
use svm_sdk_mock::{template, Address, Amount};
use svm_sdk_conf::*;

#[template]
mod Scalars {
    #[storage]
    struct Storage {
        f0: bool,
        f1: i8,
        f2: u8,
        f3: i16,
        f4: u16,
        f5: i32,
        f6: u32,
        f7: i64,
        f8: u64,
        f9: svm_sdk::Amount,
        f10: Address,
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn read_f0() -> bool { Storage::get_f0() }
    #[endpoint]
    fn write_f0(v: bool) { Storage::set_f0(v); }
    #[endpoint]
    fn read_f1() -> i8 { Storage::get_f1() }
    #[endpoint]
    fn write_f1(v: i8) { Storage::set_f1(v); }
    #[endpoint]
    fn read_f2() -> u8 { Storage::get_f2() }
    #[endpoint]
    fn write_f2(v: u8) { Storage::set_f2(v); }
    #[endpoint]
    fn read_f3() -> i16 { Storage::get_f3() }
    #[endpoint]
    fn write_f3(v: i16) { Storage::set_f3(v); }
    #[endpoint]
    fn read_f4() -> u16 { Storage::get_f4() }
    #[endpoint]
    fn write_f4(v: u16) { Storage::set_f4(v); }
    #[endpoint]
    fn read_f5() -> i32 { Storage::get_f5() }
    #[endpoint]
    fn write_f5(v: i32) { Storage::set_f5(v); }
    #[endpoint]
    fn read_f6() -> u32 { Storage::get_f6() }
    #[endpoint]
    fn write_f6(v: u32) { Storage::set_f6(v); }
    #[endpoint]
    fn read_f7() -> i64 { Storage::get_f7() }
    #[endpoint]
    fn write_f7(v: i64) { Storage::set_f7(v); }
    #[endpoint]
    fn read_f8() -> u64 { Storage::get_f8() }
    #[endpoint]
    fn write_f8(v: u64) { Storage::set_f8(v); }
    #[endpoint]
    fn read_f9() -> Amount { Storage::get_f9() }
    #[endpoint]
    fn write_f9(v: Amount) { Storage::set_f9(v); }
    #[endpoint]
    fn read_f10() -> Address { Storage::get_f10() }
    #[endpoint]
    fn write_f10(v: Address) { Storage::set_f10(&v); }
}


fn get(f: usize, i: usize) -> Vec<u8> {
    match f {
        0 => Storage::get_f0().bytes(),
        1 => Storage::get_f1().bytes(),
        2 => Storage::get_f2().bytes(),
        3 => Storage::get_f3().bytes(),
        4 => Storage::get_f4().bytes(),
        5 => Storage::get_f5().bytes(),
        6 => Storage::get_f6().bytes(),
        7 => Storage::get_f7().bytes(),
        8 => Storage::get_f8().bytes(),
        9 => Storage::get_f9().bytes(),
        10 => Storage::get_f10().bytes(),
        _ => unreachable!(),
    }
}

fn set(f: usize, i: usize, v: &[u8]) {
    match f {
        0 => Storage::set_f0(<bool>::of(v)),
        1 => Storage::set_f1(<i8>::of(v)),
        2 => Storage::set_f2(<u8>::of(v)),
        3 => Storage::set_f3(<i16>::of(v)),
        4 => Storage::set_f4(<u16>::of(v)),
        5 => Storage::set_f5(<i32>::of(v)),
        6 => Storage::set_f6(<u32>::of(v)),
        7 => Storage::set_f7(<i64>::of(v)),
        8 => Storage::set_f8(<u64>::of(v)),
        9 => Storage::set_f9(<Amount>::of(v)),
        10 => Storage::set_f10(&<Address as Cell>::of(v)),
        _ => unreachable!(),
    }
}

fn main() {
    run(get, set, raw_meta);
}
