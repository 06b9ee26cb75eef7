//! What of the server asks for the document of a file.
#![allow(unused, dead_code)]
use crate::entries::{EntryResolver, ProjectResolutionKind};
use crate::route::{ProjectResolution, ProjectRouteState};
use crate::lock::*;
use crate::model::{LockFile, ProjectInput, ProjectRoute};
use crate::*;
use tinymist_std::error::prelude::*;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tinymist_std::ImmutPath;
use tinymist_world::{EntryReader, EntryState, TaskInputs};

#[derive(Default)]
pub struct Config {
    pub entry_resolver: EntryResolver,
}
#[derive(Default)]
pub struct ServerState {
    pub route: ProjectRouteState,
    pub config: Config,
}
impl ServerState {
    pub fn entry_resolver(&self) -> &EntryResolver {
        &self.config.entry_resolver
    }
}
include!(concat!(env!("OUT_DIR"), "/input.rs"));
