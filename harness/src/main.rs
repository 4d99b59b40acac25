mod alloc;
mod model;
mod p_build;
mod p_edit;
mod p_fmt;
#[cfg(feature = "variants")]
mod p_lsp;
mod p_text;
mod real;
mod run;
mod p_serde;
mod shape;
mod spaces;
#[cfg(feature = "work")]
mod p_work;
#[cfg(feature = "variants")]
mod p_variants;

use run::*;

#[global_allocator]
static GLOBAL: alloc::Pool = alloc::Pool;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let prop = a[1].as_str();
    let tier = a.get(2).map(|s| s.as_str()).unwrap_or("quick");
    let config = if cfg!(feature = "variants") { "variants" } else { "base" };
    let rep = Rep::new(prop, tier, config);
    match prop {
        "P01" => p_text::p01(&rep),
        "P02" => p_text::p02(&rep),
        "P03" => p_text::p03(&rep),
        "P04" => p_text::p04(&rep),
        "P18" => p_text::p18(&rep),
        "P06" => p_fmt::p06(&rep),
        "P16" => p_edit::p16(&rep),
        "P05" => p_build::p05(&rep),
        "P08" => p_build::p08(&rep),
        "P09" => p_build::p09(&rep),
        "P07" => p_fmt::p07(&rep),
        #[cfg(feature = "work")]
        "P14" => p_work::p14(&rep),
        #[cfg(feature = "variants")]
        "P15" => p_lsp::p15(&rep),
        "P12" => p_serde::p12(&rep),
        "P13" => p_serde::p13(&rep),
        #[cfg(feature = "variants")]
        "P17" => p_variants::p17(&rep),
        #[cfg(feature = "variants")]
        "P11" => p_variants::p11(&rep),
        #[cfg(feature = "variants")]
        "P10" => p_variants::p10(&rep),
        "SUITE" => {
            let (n, bad) = p_text::spec_suite();
            println!("{n} files, mismatches: {bad:?}");
            return;
        }
        _ => panic!("unknown property {prop}"),
    }
    let (files, bad) = p_text::spec_suite();
    let suite = format!(
        "{{\"files\": {files}, \"agree\": {}, \"disagree\": [{}]}}",
        files - bad.len(),
        bad.iter().map(|b| esc(b)).collect::<Vec<_>>().join(", ")
    );
    std::process::exit(rep.finish(&[("model_vs_spec_suite", suite)]));
}
