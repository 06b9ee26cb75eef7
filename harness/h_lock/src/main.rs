//! The lock file, where what is compiled and made of it is written down.
#![allow(unexpected_cfgs)]
pub extern crate self as tinymist_task;
pub extern crate self as tinymist_query;
pub extern crate self as tinymist_project;

#[path = "/repo/crates/tinymist-project/src/lock.rs"]
#[allow(dead_code, unused)]
mod lock;
#[path = "/repo/crates/tinymist-project/src/model.rs"]
#[allow(dead_code, unused)]
mod model;
#[path = "/repo/crates/tinymist-task/src/primitives.rs"]
#[allow(dead_code, unused)]
mod primitives;
#[path = "/repo/crates/tinymist-task/src/model.rs"]
#[allow(dead_code, unused)]
mod tasks;
#[path = "/repo/crates/tinymist/src/route.rs"]
#[allow(dead_code, unused)]
mod route;
mod around;
mod entries {
    use super::*;
    use serde::{Deserialize, Serialize};
    use std::path::Path;
    use std::sync::Arc;
    use tinymist_std::hash::FxDashMap;
    use tinymist_std::ImmutPath;
    use tinymist_world::EntryState;
    use typst::syntax::VirtualPath;
    include!(concat!(env!("OUT_DIR"), "/entry.rs"));
}
mod server;
mod locks;
mod routes;

pub use around::*;
pub use lock::*;
pub use model::{LockFile, LockFileCompat, ProjectInput, ProjectMaterial, ProjectPathMaterial, ProjectRoute, LOCK_VERSION};
pub use primitives::*;
pub use tasks::*;

/// The names by which the server knows these.
pub mod project {
    pub use crate::entries::{EntryResolver, ProjectResolutionKind};
    pub use crate::*;
}

use locks::*;
use routes::*;
vsym::entries!(vs_lock_keep, vs_lock_keep_more, vs_lock_task, vs_lock_text, vs_lock_text_more, vs_lock_version, vs_lock_held, vs_lock_commit, vs_route_of, vs_route_of_more, vs_route_kept, vs_route_kept_more, vs_route_main);
