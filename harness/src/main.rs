mod abi;
mod accounts;
mod codec;
mod common;
mod crash;
mod ffi;
mod gas;
mod jsonapi;
mod prog;
mod runtime;
mod sdk;
mod storage;
#[global_allocator]
static ALLOC: ffi::Watcher = ffi::Watcher;
fn main() {
    let mut a = std::env::args().skip(1);
    let cmd = a.next().expect("subcommand");
    let args = common::Args::parse(a);
    common::quiet_panics();
    match cmd.as_str() {
        "accounts" => accounts::run(args),
        "abi" => abi::run(&args),
        "codec" => codec::run(args),
        "crash" => crash::run(args),
        "crash-child" => crash::child(args),
        "ffi" => ffi::run(args),
        "json" => jsonapi::run(args),
        "gas" => gas::run(args),
        "runtime" => runtime::run(args),
        "sdk" => sdk::run(args),
        "storage" => storage::run(args),
        _ => panic!("unknown subcommand"),
    }
}
