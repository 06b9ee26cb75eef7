//! The server at work: what the editor, the disk, the watcher and the
//! compiling threads do to its projects, in any order.
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Waker};

use tinymist_std::ImmutPath;
use tinymist_world::args::TaskWhen;
use tinymist_world::vfs::notify::{FilesystemEvent, MemoryEvent, NotifyMessage};
use tinymist_world::vfs::{FileChangeSet, FileSnapshot, PathAccessModel};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver};
use typst::foundations::Bytes;
use typst::syntax::{FileId, VirtualPath};
use typst::World;
use vsym::check;

use crate::editor::EditorActor;
use crate::project::*;
use crate::*;

pub const FILES: [&str; 3] = ["/w/a.typ", "/w/b.typ", "/w/c.typ"];
pub const A: usize = 0;
pub const B: usize = 1;
pub const C: usize = 2;
fn vpath(f: usize) -> &'static str {
    &FILES[f][2..]
}
pub fn path(f: usize) -> ImmutPath {
    Path::new(FILES[f]).into()
}
pub fn entry(main: Option<usize>) -> EntryState {
    let root: ImmutPath = Path::new("/w").into();
    EntryState::new_rooted(root, main.map(|f| VirtualPath::new(vpath(f))))
}

pub fn config(main: Option<usize>, lint: TaskWhen) -> Config {
    // No files on the disk but those put there.
    ::vfs::start(::vfs::State::new());
    let entry_resolver = EntryResolver { roots: vec![Path::new("/w").into()], entry: main.map(path), ..Default::default() };
    let const_config = ConstConfig { position_encoding: PositionEncoding::Utf16 };
    Config { has_default_entry_path: main.is_some(), entry_resolver, const_config, lint }
}
pub struct Sim {
    pub sv: ServerState,
    told: UnboundedReceiver<NotifyMessage>,
    editor: Pin<Box<dyn Future<Output = ()>>>,
    /// What is open in the editor.
    pub mem: [Option<String>; 3],
    /// What the watcher watches, and what it told.
    deps: Vec<ImmutPath>,
    known: Vec<(ImmutPath, FileSnapshot)>,
    /// The main files of the projects.
    pub mains: Vec<(ProjectInsId, Option<usize>)>,
    previews: Vec<(ProjectInsId, Arc<CompileWatcher>)>,
    version: usize,
    /// The texts and their files.
    pub said: Vec<(String, usize)>,
}
impl Sim {
    pub fn new(lint: TaskWhen) -> Sim {
        Self::with(config(Some(A), lint), Some(A))
    }
    /// With settings by which the main file is the one given.
    pub fn with(config: Config, main: Option<usize>) -> Sim {
        let (editor_tx, editor_rx) = unbounded_channel();
        let editor = Box::pin(EditorActor::new(LspClient, editor_rx, true).run());
        let sv = ServerState::new(config, editor_tx);
        let id = sv.project.compiler.primary.id.clone();
        let told = WATCHER.lock().unwrap().take().unwrap();
        let mut s = Sim {
            sv,
            told,
            editor,
            mem: [None, None, None],
            deps: vec![],
            known: vec![],
            mains: vec![(id.clone(), main)],
            previews: vec![],
            version: 0,
            said: vec![],
        };
        s.watch_preview(&id);
        s
    }
    fn watch_preview(&mut self, id: &ProjectInsId) {
        let w = Arc::new(CompileWatcher { status: Mutex::new(CompileStatus::Compiling), shown: Mutex::new(None) });
        if self.sv.project.preview.register(id, &w) {
            self.previews.push((id.clone(), w));
        }
    }
    pub fn primary(&self) -> ProjectInsId {
        self.sv.project.compiler.primary.id.clone()
    }
    pub fn compile(&mut self, id: &ProjectInsId) {
        self.sv.project.interrupt(Interrupt::Compile(id.clone()));
    }
    /// The editor is told what there is to tell.
    pub fn tell(&mut self) {
        let mut cx = Context::from_waker(Waker::noop());
        check(self.editor.as_mut().poll(&mut cx).is_pending(), "the editor is told on");
    }
    /// A query is about to be answered.
    pub fn check_query_now(&mut self) {
        let snap = self.sv.project.snapshot().unwrap();
        for f in 0..3 {
            if let Some(t) = &self.mem[f] {
                let text = snap.world().source(file_id(f)).ok().map(|s| s.text().to_string());
                check(text.as_ref() == Some(t), "a query reads the files as they are");
            }
        }
    }
    /// A text that is not yet in use.
    pub fn text(&mut self, kind: char) -> String {
        self.version += 1;
        format!("{kind}{}", self.version)
    }
    pub fn write(&mut self, f: usize, text: Option<String>) {
        self.said.extend(text.clone().map(|t| (t, f)));
        let mut disk = DISK.lock().unwrap();
        disk.retain(|e| e.0 != FILES[f]);
        disk.push((FILES[f], text));
        drop(disk);
        let deps = self.deps.clone();
        if let Some(c) = self.news(&deps) {
            INBOX.lock().unwrap().push_back(Interrupt::Fs(FilesystemEvent::Update(c)));
        }
    }
    /// What the watcher has to tell of the files.
    fn news(&mut self, files: &[ImmutPath]) -> Option<FileChangeSet> {
        let mut c = FileChangeSet::default();
        for p in files {
            let now = FileSnapshot::from(Disk.content(p));
            match self.known.iter_mut().find(|k| k.0 == *p) {
                Some(k) if k.1 == now => continue,
                Some(k) => k.1 = now.clone(),
                None => self.known.push((p.clone(), now.clone())),
            }
            c.inserts.push((p.clone(), now));
        }
        (!c.is_empty()).then_some(c)
    }
    /// The projects start anew, with new settings.
    pub fn reload(&mut self) {
        let main = self.mains[0].1;
        self.sv.config.entry_resolver.entry = main.map(path);
        check(self.sv.reload_projects().is_ok(), "the projects start anew");
        // Who watches now knows nothing yet. No one has a preview anymore.
        self.told = WATCHER.lock().unwrap().take().unwrap();
        self.deps.clear();
        self.known.clear();
        self.previews.clear();
        self.mains = vec![(self.primary(), main)];
    }
    /// The watcher handles a message; whether there was one.
    pub fn watch(&mut self) -> bool {
        match self.told.try_recv() {
            Ok(NotifyMessage::SyncDependency(deps)) => {
                self.deps.clear();
                deps.dependencies(&mut |p| {
                    if !self.deps.contains(p) {
                        self.deps.push(p.clone());
                    }
                });
                let deps = self.deps.clone();
                if let Some(c) = self.news(&deps) {
                    INBOX.lock().unwrap().push_back(Interrupt::Fs(FilesystemEvent::Update(c)));
                }
            }
            Ok(NotifyMessage::UpstreamUpdate(event)) => {
                let changeset = self.news(&event.invalidates).unwrap_or_default();
                INBOX.lock().unwrap().push_back(Interrupt::Fs(FilesystemEvent::UpstreamUpdate { changeset, upstream_event: Some(event) }));
            }
            Ok(NotifyMessage::Settle) => (),
            Err(_) => return false,
        }
        true
    }
    /// The server handles an event from elsewhere; whether there was one.
    pub fn event(&mut self) -> bool {
        let next = INBOX.lock().unwrap().pop_front();
        match next {
            Some(e) => {
                self.sv.project.interrupt(e);
                true
            }
            None => false,
        }
    }
    pub fn edit(&mut self, f: usize, text: Option<String>) {
        self.said.extend(text.clone().map(|t| (t, f)));
        let was = std::mem::replace(&mut self.mem[f], text.clone());
        let uri = url_of(vpath(f));
        let done = match text {
            Some(text) if was.is_none() => {
                let text_document = lsp_types::TextDocumentItem { uri, language_id: "typst".into(), version: 1, text };
                self.sv.did_open(lsp_types::DidOpenTextDocumentParams { text_document })
            }
            Some(text) => {
                let text_document = lsp_types::VersionedTextDocumentIdentifier { uri, version: 2 };
                let content_changes = vec![lsp_types::TextDocumentContentChangeEvent { range: None, range_length: None, text }];
                self.sv.did_change(lsp_types::DidChangeTextDocumentParams { text_document, content_changes })
            }
            None => self.sv.did_close(lsp_types::DidCloseTextDocumentParams { text_document: lsp_types::TextDocumentIdentifier { uri } }),
        };
        check(done.is_ok(), "the server follows the editor");
    }
    /// Tells again all that is open.
    pub fn sync(&mut self) {
        let all = (0..3).filter_map(|f| self.mem[f].clone().map(|t| (path(f), Ok(Bytes::from_string(t)).into()))).collect();
        self.sv.project.interrupt(Interrupt::Memory(MemoryEvent::Sync(FileChangeSet::new_inserts(all))));
    }
    pub fn change_main(&mut self, id: &ProjectInsId, main: Option<usize>) {
        if let Some(m) = self.mains.iter_mut().find(|m| m.0 == *id) {
            m.1 = main;
        }
        self.sv.project.interrupt(Interrupt::ChangeTask(id.clone(), TaskInputs { entry: Some(entry(main)), inputs: None }));
    }
    pub fn restart(&mut self, main: usize) -> ProjectInsId {
        let id = self.sv.project.restart_dedicate("side", entry(Some(main))).unwrap();
        self.mains.retain(|m| m.0 != id);
        self.mains.push((id.clone(), Some(main)));
        // As the preview that starts a project has it.
        self.watch_preview(&id);
        self.sv.project.interrupt(Interrupt::Compile(id.clone()));
        id
    }
    pub fn settle_project(&mut self, id: &ProjectInsId) {
        self.mains.retain(|m| m.0 != *id);
        self.sv.project.interrupt(Interrupt::Settle(id.clone()));
    }
    /// All that is under way comes to its end.
    pub fn rest(&mut self) {
        for _ in 0..24 {
            let mut went = false;
            while self.event() {
                went = true;
            }
            while rayon::run_one() {
                went = true;
            }
            went |= self.watch();
            self.tell();
            if !went {
                return;
            }
        }
        check(false, "the server comes to rest");
    }
    fn now(&self, f: usize) -> Option<String> {
        self.mem[f].clone().or_else(|| on_disk(Path::new(FILES[f])))
    }
    /// What the document of the main file says, or what is wrong with it.
    fn expected(&self, main: usize) -> Result<Vec<String>, (usize, String)> {
        let mut all = vec![];
        let mut next = Some(main);
        while let Some(f) = next.take() {
            let t = self.now(f).ok_or((f, format!("{}|missing", vpath(f))))?;
            if t.starts_with('i') && f == main {
                next = Some(B);
            }
            if t.contains('!') {
                return Err((f, format!("{}|{t}", vpath(f))));
            }
            all.push(t);
        }
        Ok(all)
    }
    /// At rest, everyone knows what the files say now.
    pub fn check_rest(&mut self) {
        let mut wrong: [Vec<String>; 3] = Default::default();
        for (id, main) in self.mains.clone() {
            let proj = self.sv.project.compiler.projects().find(|p| p.id == id);
            check(proj.is_some(), "a project that was not settled is there");
            let proj = proj.unwrap();
            check(!proj.ext.is_compiling, "no project waits for a compilation that is over");
            let Some(main) = main else { continue };
            let want = self.expected(main);
            let texts = match &want {
                Ok(t) => t.clone(),
                Err((f, m)) => {
                    wrong[*f].push(m.clone());
                    vec![m.clone()]
                }
            };
            let proj = self.sv.project.compiler.projects().find(|p| p.id == id).unwrap();
            let last = proj.ext.last_compilation.as_ref().map(texts_of);
            check(last.as_ref() == Some(&texts), "the last compilation of a project is of the files as they are");
            let success = proj.ext.last_compilation.as_ref().and_then(|a| a.success_doc());
            if let Some(TypstDocument::Paged(d)) = success {
                let main_text = d.pages[0].text.to_string();
                check(self.said.contains(&(main_text, main)), "the last document of a project is of its main file");
            }
            let given = GIVEN.lock().unwrap().iter().rev().find(|g| g.0 == id).map(|g| g.1.texts.clone());
            check(given.as_ref() == Some(&texts), "what is exported is of the files as they are");
            if let Some((_, w)) = self.previews.iter().find(|p| p.0 == id) {
                let shown = w.shown.lock().unwrap().clone();
                check(shown.is_some_and(|s| s.texts == texts), "what is previewed is of the files as they are");
                let status = if want.is_ok() { CompileStatus::CompileSuccess } else { CompileStatus::CompileError };
                check(*w.status.lock().unwrap() == status, "the status of a preview is that of its project");
            }
        }
        for (f, wrong) in wrong.iter_mut().enumerate() {
            let mut shown = SHOWN.lock().unwrap().iter().find(|s| s.0 == url_of(vpath(f))).map(|s| s.1.clone()).unwrap_or_default();
            shown.sort();
            wrong.sort();
            check(shown == *wrong, "the editor shows the diagnostics of the files as they are");
        }
    }
    /// A query sees the files of the document, and those open, as they are.
    pub fn check_query(&mut self) {
        let snap = self.sv.project.snapshot().unwrap();
        for f in 0..3 {
            let used = self.mains[0].1 == Some(f) || f == B && self.mains[0].1.is_some_and(|m| self.now(m).is_some_and(|t| t.starts_with('i')));
            if !used && self.mem[f].is_none() {
                continue;
            }
            let id = entry(Some(f)).main().unwrap();
            let text = snap.world().source(id).ok().map(|s| s.text().to_string());
            check(text == self.now(f), "a query reads the files as they are");
        }
    }
}
pub fn file_id(f: usize) -> FileId {
    entry(Some(f)).main().unwrap()
}
