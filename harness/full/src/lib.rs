mod pool;
mod rt;
mod web;
#[unsafe(no_mangle)]
pub extern "C" fn ow_main(argc: i32, argv: *const *const std::ffi::c_char) -> i32 {
    let args: Vec<String> = (0..argc as usize)
        .map(|i| unsafe { std::ffi::CStr::from_ptr(*argv.add(i)) }.to_string_lossy().into_owned())
        .collect();
    let input: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let out = &args[3];
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("OW_PANICS").is_some() {
            eprintln!("{i}");
        }
    }));
    match args[1].as_str() {
        "rt" => rt::replay(&input, out),
        "web" => web::replay(&input, out),
        "pool" => pool::replay(&input, out),
        x => panic!("no suite {x}"),
    }
    0
}
