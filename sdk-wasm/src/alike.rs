use svm_sdk::{template, Address, Amount};

#[template]
mod Alike {
    #[storage]
    struct Storage {
        f0: u32,
        f1: [u32; 2],
        f2: u32,
        f3: [u32; 3],
        f4: u32,
        f5: svm_sdk::Address,
        f6: [Address; 2],
        f7: svm_sdk::Address,
        f8: [u64; 2],
        f9: svm_sdk::Amount,
        f10: [Amount; 2],
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn read_f0() -> u32 { Storage::get_f0() }
    #[endpoint]
    fn write_f0(v: u32) { Storage::set_f0(v); }
    #[endpoint]
    fn read_f1(i: u32) -> u32 { Storage::get_f1(i as usize) }
    #[endpoint]
    fn write_f1(i: u32, v: u32) { Storage::set_f1(i as usize, v); }
    #[endpoint]
    fn read_f2() -> u32 { Storage::get_f2() }
    #[endpoint]
    fn write_f2(v: u32) { Storage::set_f2(v); }
    #[endpoint]
    fn read_f3(i: u32) -> u32 { Storage::get_f3(i as usize) }
    #[endpoint]
    fn write_f3(i: u32, v: u32) { Storage::set_f3(i as usize, v); }
    #[endpoint]
    fn read_f4() -> u32 { Storage::get_f4() }
    #[endpoint]
    fn write_f4(v: u32) { Storage::set_f4(v); }
    #[endpoint]
    fn read_f5() -> Address { Storage::get_f5() }
    #[endpoint]
    fn write_f5(v: Address) { Storage::set_f5(&v); }
    #[endpoint]
    fn read_f6(i: u32) -> Address { Storage::get_f6(i as usize) }
    #[endpoint]
    fn write_f6(i: u32, v: Address) { Storage::set_f6(i as usize, &v); }
    #[endpoint]
    fn read_f7() -> Address { Storage::get_f7() }
    #[endpoint]
    fn write_f7(v: Address) { Storage::set_f7(&v); }
    #[endpoint]
    fn read_f8(i: u32) -> u64 { Storage::get_f8(i as usize) }
    #[endpoint]
    fn write_f8(i: u32, v: u64) { Storage::set_f8(i as usize, v); }
    #[endpoint]
    fn read_f9() -> Amount { Storage::get_f9() }
    #[endpoint]
    fn write_f9(v: Amount) { Storage::set_f9(v); }
    #[endpoint]
    fn read_f10(i: u32) -> Amount { Storage::get_f10(i as usize) }
    #[endpoint]
    fn write_f10(i: u32, v: Amount) { Storage::set_f10(i as usize, v); }
}
