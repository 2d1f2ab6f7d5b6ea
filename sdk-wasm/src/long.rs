use svm_sdk::{template, Address, Amount};

#[template]
mod Long {
    #[storage]
    struct Storage {
        f0: [u8; 40],
        f1: svm_sdk::Address,
        f2: [Amount; 33],
        f3: bool,
        f4: [Address; 17],
        f5: u16,
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn read_f0(i: u32) -> u8 { Storage::get_f0(i as usize) }
    #[endpoint]
    fn write_f0(i: u32, v: u8) { Storage::set_f0(i as usize, v); }
    #[endpoint]
    fn read_f1() -> Address { Storage::get_f1() }
    #[endpoint]
    fn write_f1(v: Address) { Storage::set_f1(&v); }
    #[endpoint]
    fn read_f2(i: u32) -> Amount { Storage::get_f2(i as usize) }
    #[endpoint]
    fn write_f2(i: u32, v: Amount) { Storage::set_f2(i as usize, v); }
    #[endpoint]
    fn read_f3() -> bool { Storage::get_f3() }
    #[endpoint]
    fn write_f3(v: bool) { Storage::set_f3(v); }
    #[endpoint]
    fn read_f4(i: u32) -> Address { Storage::get_f4(i as usize) }
    #[endpoint]
    fn write_f4(i: u32, v: Address) { Storage::set_f4(i as usize, &v); }
    #[endpoint]
    fn read_f5() -> u16 { Storage::get_f5() }
    #[endpoint]
    fn write_f5(v: u16) { Storage::set_f5(v); }
}
