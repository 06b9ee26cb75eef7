mod atomic;
mod locks;
mod remove;
use atomic::*;
use locks::*;
use remove::*;
vsym::entries!(
    vs_a_write, vs_a_write_more, vs_a_write_odd, vs_a_write_two, vs_a_inplace, vs_a_read, vs_a_copy, vs_a_temp_dir, vs_a_excluded,
    vs_a_excluded_two, vs_r_tree, vs_r_odd, vs_r_siblings, vs_r_link, vs_r_canon, vs_l_race, vs_l_race3, vs_l_try, vs_l_errors, vs_l_open,
    vs_l_io,
);
