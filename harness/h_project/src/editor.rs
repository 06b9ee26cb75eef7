//! The actor that tells the editor.
#![allow(dead_code, unused)]
use std::collections::HashMap;

use ecow::{eco_vec, EcoVec};
use lsp_types::notification::{Notification, PublishDiagnostics as PublishDiagnosticsBase};
use lsp_types::{Diagnostic, Url};
use serde::{Deserialize, Serialize};
use tinymist_std::path::unix_slash;
use tokio::sync::mpsc;

use crate::{CompileReport, DiagnosticsMap, LspClient, MapOr, ProjectInsId, WordsCount};

include!(concat!(env!("OUT_DIR"), "/editor.rs"));

impl PublishDiagnosticsParams {
    /// The messages told of the file.
    pub fn messages(&self) -> Vec<&str> {
        self.diagnostics.0.iter().flatten().map(|d| d.message.as_str()).collect()
    }
}
