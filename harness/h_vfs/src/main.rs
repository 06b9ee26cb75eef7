mod layers;
mod roots;
mod watching;
use roots::*;
use watching::*;
use layers::*;
vsym::entries!(
    vs_v_read, vs_v_read_more, vs_v_snap, vs_v_snap_more, vs_v_race, vs_v_clean, vs_v_clean_race, vs_v_harmless, vs_v_source, vs_v_reset, vs_v_sources, vs_p_intern, vs_p_inside, vs_p_package, vs_p_alone, vs_p_race, vs_w_watch, vs_w_watch_more, vs_w_flicker,
    vs_w_deps, vs_w_deps_more, vs_w_old,
);
