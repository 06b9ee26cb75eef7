#![allow(clippy::all)]
mod table;
mod text;
use table::*;
use text::*;

vsym::entries! { vs_l_any, vs_l_any_load, vs_l_file, vs_l_value, vs_l_update, vs_l_disk, vs_l_text, vs_l_text_more, vs_l_args, vs_l_lookup, vs_l_locale, vs_l_bail }
