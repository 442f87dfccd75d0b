//! Harness entries; see /verif/DESIGN.md.  The engine runs one `vp_main_*` function with
//! symbolic hooks; this binary runs the same function natively to replay recorded values.
#![allow(dead_code)]
mod hooks;
mod util;
mod names;
mod install;
mod lookup;
mod location;
mod store;
mod pack;
mod s3;
mod crash;
mod auto;
mod history;
mod places;

extern "C" { fn vp_native_begin() -> i32; fn vp_native_end() -> i32; }

macro_rules! entries { ($($m:ident :: $f:ident => $n:ident),* $(,)?) => {
    $( #[no_mangle] pub extern "C" fn $n(arg: u64) { $m::$f(arg) } )*
    static ENTRIES: &[(&str, extern "C" fn(u64))] = &[$((stringify!($n), $n)),*];
} }
entries! {
    names::build_free => vp_main_c08_build,
    names::build_ends => vp_main_c08_build_ends,
    names::patch_free => vp_main_c08_patch,
    names::patch_words => vp_main_c08_patch_words,
    names::patch_ends => vp_main_c08_patch_ends,
    names::long => vp_main_c08_long,
    names::accept => vp_main_c09_accept,
    names::contained => vp_main_c09_contained,
    lookup::one_tag => vp_main_c12_one,
    lookup::three_tags => vp_main_c12_three,
    lookup::odd_tags => vp_main_c12_odd,
    lookup::long_numbers => vp_main_c12_long, lookup::many_levels => vp_main_c12_levels, lookup::extreme => vp_main_c12_extreme,
    lookup::resolve => vp_main_c13,
    location::any => vp_main_c16_any,
    location::s3 => vp_main_c16_s3,
    location::scheme => vp_main_c16_scheme,
    location::level => vp_main_c20_level,
    location::level_ends => vp_main_c20_ends,
    location::damaged => vp_main_c20_damaged,
    install::layouts => vp_main_c01,
    install::damaged_patch => vp_main_c02_damaged,
    install::missing_full => vp_main_c02_missing,
    install::exact_patch => vp_main_c02_exact,
    install::cheapest => vp_main_c03,
    install::partly_local => vp_main_c03_local,
    install::switching => vp_main_c05,
    install::again => vp_main_c21,
    install::again_s3 => vp_main_c21_s3,
    store::index_builds => vp_main_c10_builds,
    store::index_patches => vp_main_c10_patches,
    store::index_names => vp_main_c10_names,
    store::sync_dirs => vp_main_c07_dirs, history::history => vp_main_c26, places::spellings => vp_main_c27, places::same_place => vp_main_c27_same, history::large => vp_main_c26_large, store::sync_many => vp_main_c07_many,
    store::sync_s3 => vp_main_c07_s3,
    store::create => vp_main_c17,
    store::create_other => vp_main_c17_other,
    store::add => vp_main_c19_add,
    store::add_package => vp_main_c19_package,
    crash::whole => vp_main_c04,
    crash::reports => vp_main_c06, auto::tags => vp_main_c25, auto::unusable => vp_main_c25_unusable, crash::clean => vp_main_c24, crash::clean_bad => vp_main_c24_bad,
    crash::partial => vp_main_c18,
    crash::parallel => vp_main_c22,
    s3::checksums => vp_main_c14,
    s3::responses => vp_main_c14_responses,
    s3::namespace => vp_main_c15,
    s3::keys => vp_main_c15_keys,
    s3::pages => vp_main_c15_pages,
    pack::packs => vp_main_c11,
    pack::modes => vp_main_c11_modes,
    pack::file_names => vp_main_c11_names,
}

fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    let arg: u64 = std::env::args().nth(2).and_then(|a| a.parse().ok()).unwrap_or(0);
    let f = match ENTRIES.iter().find(|e| e.0 == name) { Some(e) => e.1, None => { eprintln!("no entry {:?}", name); std::process::exit(3) } };
    let r = unsafe { vp_native_begin() };
    if r != 0 { std::process::exit(r) }
    f(arg);
    std::process::exit(unsafe { vp_native_end() });
}
