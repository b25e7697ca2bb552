mod aw;
mod buffers;
mod cputime;
mod deferred;
mod gc;
mod js;
mod log;
mod security;
mod sm;
mod trace;
#[unsafe(no_mangle)]
pub extern "C" fn ow_main(argc: i32, argv: *const *const std::ffi::c_char) -> i32 {
    let args: Vec<String> = (0..argc as usize)
        .map(|i| unsafe { std::ffi::CStr::from_ptr(*argv.add(i)) }.to_string_lossy().into_owned())
        .collect();
    let input: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let out = &args[3];
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("OW_PANICS").is_some() {
            eprintln!("{i}");
        }
    }));
    match args[1].as_str() {
        "js" => js::replay(&input, out),
        "aw" => aw::replay(&input, out),
        "aw_crowd" => aw::crowd(&input, out),
        "sm" => sm::replay(&input, out),
        "pump" => sm::pump(&input, out),
        "em" => gc::external(&input, out),
        "dq" => deferred::replay(&input, out),
        "dq_conc" => deferred::explore(&input, out),
        "cputime" => cputime::replay(&input, out),
        "buffers" => buffers::replay(&input, out),
        "trace" => trace::replay(&input, out),
        "quota" => security::quota(&input, out),
        "quota_conc" => security::quota_conc(&input, out),
        "near" => security::near(&input, out),
        "wall" => security::wall(&input, out),
        "cpu" => security::cpu(&input, out),
        "em_conc" => gc::external_conc(&input, out),
        "aw_conc" => aw::explore(&input, out),
        x => panic!("no suite {x}"),
    }
    0
}
