#![allow(clippy::all)]
mod dapd;
mod driver;
mod frame;
mod queue;
mod srv;
mod thr;
mod world;
use dapd::*;
use driver::*;
use thr::*;
use frame::*;
use queue::*;


vsym::entries! { vs_fr_rt_request, vs_fr_rt_notification, vs_fr_rt_result, vs_fr_rt_error, vs_fr_ids, vs_fr_dap_roundtrip, vs_fr_text, vs_fr_text4, vs_fr_pieces, vs_fr_any, vs_fr_any_dap, vs_fr_length, vs_fr_length_more, vs_fr_header, vs_fr_cut, vs_fr_body, vs_fr_body_in, vs_fr_body4, vs_fr_body_in3, vs_fr_escape, vs_fr_classify, vs_drv_start, vs_drv_ready, vs_drv_more, vs_q_ask, vs_q_ask_again, vs_q_ask_more, vs_q_pending, vs_q_pending4, vs_q_closed, vs_q_respond, vs_q_command, vs_q_resource, vs_q_events, vs_dap_start, vs_dap_ready, vs_dap_wide, vs_dap_more, vs_dap_events, vs_io_read, vs_io_read3, vs_io_write, vs_io_write2, vs_io_write_fail }
