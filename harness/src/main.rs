//! Property harnesses for prometrics. See DESIGN.md.
pub mod rt;
#[cfg(feature = "native")]
mod native;

#[macro_export]
macro_rules! entry {
    ($(#[$m:meta])* $name:ident $body:block) => {
        $(#[$m])*
        #[no_mangle]
        #[inline(never)]
        pub extern "C" fn $name() {
            $crate::rt::start();
            $body
        }
    };
}
macro_rules! entries {
    ($($m:ident: $($e:ident)*;)*) => {
        $(pub mod $m;)*
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$($((stringify!($e), $m::$e),)*)*];
    };
}
entries! {
    counter: h_c01_seq h_c01_step h_c02_accept h_c02_integral h_c02_fraction h_c02_large h_c02_big h_c02_wrap h_c02_edge h_c02_many;
    gauge: h_c03_seq h_c03_set h_c05_time h_c05_time_adds h_c05_inprogress h_c03_many h_c05_many h_c05_time_many;
    histogram: h_c06_counts h_c06_nan h_c06_order h_c07_build h_c07_linear h_c07_linear_any h_c07_exponential h_c08_merge h_c06_many h_c06_many_obs h_c07_many h_c07_generated h_c08_many;
    summary: h_c09_quantiles h_c09_rank h_c10_window h_c10_any h_c10_backwards h_c10_merged h_c11_merge h_c12_new h_c12_build h_c12_order h_c09_many h_c10_many h_c11_many;
    names: h_c13_parts h_c13_all h_c14_new h_c14_build h_c14_insert h_c15_map h_c15_order h_c28_names h_c28_labels h_c13_long h_c14_long h_c15_many h_c28_long h_c28_long_labels;
    text: h_c16_values h_c16_label h_c17_help h_c18_number h_c18_histogram h_c18_summary h_c16_many h_c18_many;
    gather: h_c19_families h_c19_many h_c19_repeats h_c20_values h_c20_apart h_c21_collectors h_c21_handles h_c21_collector h_c22_registries h_c22_default h_c23_builder h_c23_started h_c20_many h_c21_many h_c22_many h_c22_waiting h_c23_many;
    process: h_c25_process h_c25_sizes;
    time: h_c24_history h_c24_many;
    par: h_c04_counter h_c04_gauge h_c04_inprogress h_c04_histogram h_c04_summary h_c04_expiry h_c27_labels h_c27_register h_c27_default h_c27_many_labels h_c27_many h_c27_sort;
    held: h_c26_iter h_c26_get h_c26_held h_c26_threads h_c26_many;
    reuse: h_c29_panic h_c29_inside h_c30_window h_c30_labels h_c30_updates h_c30_dropped h_c30_life h_c31_again;
    more: h_c21_threads h_c24_threads h_c32_ways h_c32_snapshot;
    long: h_c02_long h_c03_long h_c06_long h_c07_long h_c08_long h_c10_long h_c11_long h_c15_long h_c19_long h_c21_long h_c21_rounds h_c31_long;
    smoke: h_smoke_gather;
}

#[cfg(not(feature = "native"))]
fn main() {
    // keeps every harness in the program
    let i = rt::sym(64, "entry") as usize;
    (ENTRIES[i].1)();
    std::hint::black_box(&rt::STUBS);
}
#[cfg(feature = "native")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 {
        native::INPUTS.lock().unwrap().0 = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    }
    for (n, f) in ENTRIES {
        if *n == a[1] {
            f();
            println!("RESULT completed");
            native::finish(0);
        }
    }
    println!("no such entry");
    std::process::exit(4);
}
