use svm_sdk::{template, Address, Amount};

#[template]
mod Arrays {
    #[storage]
    struct Storage {
        f0: [u8; 3],
        f1: [svm_sdk::Address; 2],
        f2: [bool; 4],
        f3: [i64; 1],
        f4: [u16; 5],
        f5: [svm_sdk::Amount; 3],
        f6: [i8; 2],
        f7: [u32; 4],
        f8: [i16; 3],
        f9: [u64; 2],
        f10: [i32; 6],
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn read_f0(i: u32) -> u8 { Storage::get_f0(i as usize) }
    #[endpoint]
    fn write_f0(i: u32, v: u8) { Storage::set_f0(i as usize, v); }
    #[endpoint]
    fn read_f1(i: u32) -> Address { Storage::get_f1(i as usize) }
    #[endpoint]
    fn write_f1(i: u32, v: Address) { Storage::set_f1(i as usize, &v); }
    #[endpoint]
    fn read_f2(i: u32) -> bool { Storage::get_f2(i as usize) }
    #[endpoint]
    fn write_f2(i: u32, v: bool) { Storage::set_f2(i as usize, v); }
    #[endpoint]
    fn read_f3(i: u32) -> i64 { Storage::get_f3(i as usize) }
    #[endpoint]
    fn write_f3(i: u32, v: i64) { Storage::set_f3(i as usize, v); }
    #[endpoint]
    fn read_f4(i: u32) -> u16 { Storage::get_f4(i as usize) }
    #[endpoint]
    fn write_f4(i: u32, v: u16) { Storage::set_f4(i as usize, v); }
    #[endpoint]
    fn read_f5(i: u32) -> Amount { Storage::get_f5(i as usize) }
    #[endpoint]
    fn write_f5(i: u32, v: Amount) { Storage::set_f5(i as usize, v); }
    #[endpoint]
    fn read_f6(i: u32) -> i8 { Storage::get_f6(i as usize) }
    #[endpoint]
    fn write_f6(i: u32, v: i8) { Storage::set_f6(i as usize, v); }
    #[endpoint]
    fn read_f7(i: u32) -> u32 { Storage::get_f7(i as usize) }
    #[endpoint]
    fn write_f7(i: u32, v: u32) { Storage::set_f7(i as usize, v); }
    #[endpoint]
    fn read_f8(i: u32) -> i16 { Storage::get_f8(i as usize) }
    #[endpoint]
    fn write_f8(i: u32, v: i16) { Storage::set_f8(i as usize, v); }
    #[endpoint]
    fn read_f9(i: u32) -> u64 { Storage::get_f9(i as usize) }
    #[endpoint]
    fn write_f9(i: u32, v: u64) { Storage::set_f9(i as usize, v); }
    #[endpoint]
    fn read_f10(i: u32) -> i32 { Storage::get_f10(i as usize) }
    #[endpoint]
    fn write_f10(i: u32, v: i32) { Storage::set_f10(i as usize, v); }
}
