//! Coverage-guided search over the cases of one property (`TVH_PROP`), with its oracle. A failing
//! case goes to `TVH_FOUND`.
#![no_main]

use std::sync::Once;

use libfuzzer_sys::fuzz_target;
use tvh::rec::Rec;
use tvh::run::*;

static ONCE: Once = Once::new();

fuzz_target!(|b: &[u8]| {
    ONCE.call_once(tvh::base::install_panic_hook);
    let prop = std::env::var("TVH_PROP").expect("TVH_PROP");
    let case = fuzz_case(&prop, b);
    let mut rec = Rec::default();
    if let Err(f) = run_case(&prop, &case, &mut rec) {
        let text = smaller(&prop, case, f);
        let path = std::env::var("TVH_FOUND").expect("TVH_FOUND");
        if std::fs::File::options().write(true).create_new(true).open(format!("{path}.lock")).is_ok() {
            std::fs::write(&path, text).expect("writing the case");
            std::fs::write(format!("{path}.done"), "").expect("writing the mark");
        }
        std::process::exit(0);
    }
});
