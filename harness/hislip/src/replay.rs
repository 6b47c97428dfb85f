#[allow(non_upper_case_globals)]
const TABLE: fn() -> Vec<(&'static str, fn())> = hhislip::table;
include!("../../symrt/native.rs");
