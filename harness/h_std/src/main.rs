#![allow(dead_code)]
pub mod adt {
    pub use tinymist_std::adt::CHashMap;
}
pub mod error {
    pub mod prelude {
        pub use tinymist_std::error::prelude::*;
    }
}
/// The same source with the other way to make fingerprints.
#[path = "/repo/crates/tinymist-std/src/hash.rs"]
pub mod bi;
mod fg;
mod misc;
mod paths;
use fg::*;
use misc::*;
use paths::*;
vsym::entries!(
    vs_p_slash, vs_p_slash_more, vs_p_slash_text, vs_p_clean, vs_p_diff, vs_p_diff_more, vs_p_ancestors, vs_p_bytes, vs_p_join,
    vs_f_text, vs_f_serde, vs_f_any_text, vs_f_long_text, vs_f_resolve, vs_f_resolve_bi, vs_f_unchecked, vs_f_unchecked_bi,
    vs_f_race, vs_f_race_bi, vs_f_race_unchecked_bi, vs_f_hash, vs_f_map, vs_f_map_new, vs_f_map_default, vs_f_map_race, vs_f_text_more,
    vs_m_query, vs_m_query_more, vs_m_take, vs_m_cow, vs_m_bytes, vs_m_bytes_any, vs_m_diag, vs_m_severity, vs_m_error, vs_m_context,
    vs_m_bail, vs_m_unix, vs_m_system_time,
);
