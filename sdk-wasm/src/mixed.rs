use svm_sdk::{template, Address, Amount};

#[template]
mod Mixed {
    #[storage]
    struct Storage {
        f0: [Address; 3],
        f1: u8,
        f2: [bool; 7],
        f3: svm_sdk::Amount,
        f4: [u16; 1],
        f5: svm_sdk::Address,
        f6: [i64; 4],
        f7: u32,
        f8: [Amount; 2],
        f9: bool,
        f10: [i32; 2],
        f11: i16,
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn read_f0(i: u32) -> Address { Storage::get_f0(i as usize) }
    #[endpoint]
    fn write_f0(i: u32, v: Address) { Storage::set_f0(i as usize, &v); }
    #[endpoint]
    fn read_f1() -> u8 { Storage::get_f1() }
    #[endpoint]
    fn write_f1(v: u8) { Storage::set_f1(v); }
    #[endpoint]
    fn read_f2(i: u32) -> bool { Storage::get_f2(i as usize) }
    #[endpoint]
    fn write_f2(i: u32, v: bool) { Storage::set_f2(i as usize, v); }
    #[endpoint]
    fn read_f3() -> Amount { Storage::get_f3() }
    #[endpoint]
    fn write_f3(v: Amount) { Storage::set_f3(v); }
    #[endpoint]
    fn read_f4(i: u32) -> u16 { Storage::get_f4(i as usize) }
    #[endpoint]
    fn write_f4(i: u32, v: u16) { Storage::set_f4(i as usize, v); }
    #[endpoint]
    fn read_f5() -> Address { Storage::get_f5() }
    #[endpoint]
    fn write_f5(v: Address) { Storage::set_f5(&v); }
    #[endpoint]
    fn read_f6(i: u32) -> i64 { Storage::get_f6(i as usize) }
    #[endpoint]
    fn write_f6(i: u32, v: i64) { Storage::set_f6(i as usize, v); }
    #[endpoint]
    fn read_f7() -> u32 { Storage::get_f7() }
    #[endpoint]
    fn write_f7(v: u32) { Storage::set_f7(v); }
    #[endpoint]
    fn read_f8(i: u32) -> Amount { Storage::get_f8(i as usize) }
    #[endpoint]
    fn write_f8(i: u32, v: Amount) { Storage::set_f8(i as usize, v); }
    #[endpoint]
    fn read_f9() -> bool { Storage::get_f9() }
    #[endpoint]
    fn write_f9(v: bool) { Storage::set_f9(v); }
    #[endpoint]
    fn read_f10(i: u32) -> i32 { Storage::get_f10(i as usize) }
    #[endpoint]
    fn write_f10(i: u32, v: i32) { Storage::set_f10(i as usize, v); }
    #[endpoint]
    fn read_f11() -> i16 { Storage::get_f11() }
    #[endpoint]
    fn write_f11(v: i16) { Storage::set_f11(v); }
}
