//! Exports in the background.
use std::collections::HashMap;
use std::path::Path;
use std::sync::Arc;

use crate::editor::EditorRequest;
use crate::task::export::{ExportTask, ExportUserConfig};
use crate::*;
use tinymist_world::args::{ExportTarget, TaskWhen};
use tinymist_world::vfs::Vfs;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver};
use typst::syntax::VirtualPath;
use vsym::{bool, check, cover, pick};

/// A project, and the texts it was compiled with.
struct Project {
    id: ProjectInsId,
    main: &'static str,
    verse: LspUniverse,
    texts: Vec<String>,
    good: Option<TypstDocument>,
}
impl Project {
    fn new(name: &str, root: &str, main: &'static str, revisions: usize) -> Project {
        let entry = EntryState::new_rooted(Path::new(root).into(), Some(VirtualPath::new(main)));
        let mut verse =
            CompilerUniverse::new_raw(entry, Default::default(), None, Vfs::new(Arc::new(Roots), Disk), Arc::new(Packages), Arc::new(Fonts(1)));
        for k in 0..revisions {
            write(&mut verse, root, main, &format!("{k}"));
        }
        Project { id: ProjectInsId(name.into()), main, verse, texts: vec![], good: None }
    }
    /// It is compiled with a new text.
    fn compiled(&mut self, text: String, signal: ExportSignal) -> LspCompiledArtifact {
        let root = self.verse.entry_state().root().unwrap();
        write(&mut self.verse, root.to_str().unwrap(), self.main, &text);
        self.texts.push(text);
        let mut snap = CompileSnapshot::from_world(self.verse.snapshot());
        snap.id = self.id.clone();
        snap.signal = signal;
        snap.success_doc = self.good.clone();
        let art = CompiledArtifact::from_graph(WorldComputeGraph::new(snap), false);
        if art.doc.is_some() {
            self.good = art.doc.clone();
        }
        art
    }
    fn text(&mut self, kind: char) -> String {
        format!("{kind}{}{}", &self.id.0[..1], self.texts.len())
    }
    /// What is made of its texts, in order.
    fn versions(&self) -> Vec<Option<Vec<u8>>> {
        std::iter::once(None).chain(self.texts.iter().map(|t| Some(format!("pdf {t}").into_bytes()))).collect()
    }
}
fn write(verse: &mut LspUniverse, root: &str, main: &str, text: &str) {
    let path = Path::new(root).join(&main[1..]);
    verse.increment_revision(|v| v.vfs().map_shadow(&path, Ok(Bytes::from_string(text.to_owned())).into()).unwrap());
}
fn signal(mem: bool, fs: bool, entry: bool) -> ExportSignal {
    ExportSignal { by_mem_events: mem, by_fs_events: fs, by_entry_update: entry }
}
fn edited() -> ExportSignal {
    signal(true, false, false)
}
fn pdf(when: TaskWhen, output: &str) -> ExportUserConfig {
    let export = crate::model::ExportTask { when, output: Some(PathPattern::new(output)), transform: vec![] };
    ExportUserConfig {
        export_target: ExportTarget::Paged,
        task: ProjectTask::ExportPdf(ExportPdfTask { export, pdf_standards: vec![], creation_timestamp: None }),
        count_words: false,
    }
}
fn exporter(config: ExportUserConfig) -> (ExportTask, UnboundedReceiver<EditorRequest>) {
    let (tx, rx) = unbounded_channel();
    (ExportTask::new(tokio::runtime::Handle, Some(tx), config), rx)
}
fn files() -> ::vfs::State {
    let mut s = ::vfs::State::new();
    s.dir("/w");
    s.dir("/w/d");
    s
}
fn read(path: &str) -> Option<Vec<u8>> {
    std::fs::read(path).ok()
}
fn rest() {
    for _ in 0..24 {
        let left = tokio::turn();
        let mut went = false;
        while tokio::task::work(0) {
            went = true;
        }
        if !went {
            check(left == 0, "what is under way comes to its end");
            return;
        }
    }
    check(false, "what is under way comes to its end");
}

/// When a document is exported.
#[no_mangle]
pub extern "C" fn vs_ex_when() {
    ::vfs::start(files());
    let when = [TaskWhen::Never, TaskWhen::OnSave, TaskWhen::OnType, TaskWhen::OnDocumentHasTitle][pick("when", 4)];
    let (mem, fs, entry) = (bool("mem"), bool("fs"), bool("entry"));
    let kind = ['s', 't', '!'][pick("kind", 3)];
    let (task, _) = exporter(pdf(when, "/w/o/$name"));
    let mut p = Project::new("primary", "/w", "/a.typ", 0);
    let text = p.text(kind);
    let signal = signal(mem, fs, entry);
    let art = p.compiled(text.clone(), signal);
    task.signal(&art);
    rest();
    let met = match when {
        TaskWhen::Never => false,
        TaskWhen::OnSave => entry || fs,
        TaskWhen::OnType => entry || mem,
        TaskWhen::OnDocumentHasTitle => entry || fs && kind == 't',
    };
    check(art.doc.is_none() || signal.should_run_task_dyn(when, art.doc.as_ref()) == Some(met), "a task is to be run when it is to be");
    let got = read("/w/o/a.pdf");
    if met && kind != '!' {
        check(got == Some(format!("pdf {text}").into_bytes()), "a document is exported when it is to be");
        cover("exported");
    } else {
        check(got.is_none(), "a document is exported only when it is to be");
        cover("left");
    }
}

/// What was written of a project, as it goes.
struct Seen {
    path: &'static str,
    at: usize,
}
impl Seen {
    /// What is there is of the project, and no older than before.
    fn look(&mut self, p: &Project) {
        let now = read(self.path);
        let at = p.versions().iter().rposition(|v| *v == now);
        check(at.is_some(), "what is exported is a document of the project");
        let at = at.unwrap();
        check(at >= self.at, "an older document does not replace a newer one");
        self.at = at;
    }
}
fn two(lag: usize) -> [Project; 2] {
    [Project::new("primary", "/w", "/a.typ", lag), Project::new("side", "/w", "/d/b.typ", 0)]
}
/// Documents of two projects come while others are exported.
fn folds(n: usize, with: Option<TaskWhen>) {
    ::vfs::start(files());
    let (task, _) = exporter(pdf(with.unwrap_or(TaskWhen::OnType), "$root/o/$dir/$name"));
    let mut ps = two(if bool("lag") { 3 } else { 0 });
    let mut seen = [Seen { path: "/w/o/a.pdf", at: 0 }, Seen { path: "/w/o/d/b.pdf", at: 0 }];
    for _ in 0..n {
        match pick("step", 4) {
            k @ 0..=1 => {
                let text = ps[k].text('s');
                let art = ps[k].compiled(text, edited());
                task.signal(&art);
            }
            2 => {
                tokio::turn();
            }
            _ => {
                if !tokio::task::work(0) {
                    vsym::end();
                }
                seen.iter_mut().zip(&ps).for_each(|(s, p)| s.look(p));
            }
        }
    }
    for _ in 0..2 {
        rest();
        for (s, p) in seen.iter_mut().zip(&ps) {
            s.look(p);
            check(s.at == p.texts.len(), "the newest document that was to be exported is");
        }
        // And again.
        for p in &mut ps {
            let text = p.text('s');
            let art = p.compiled(text, edited());
            task.signal(&art);
        }
    }
    cover("end");
}
#[no_mangle]
pub extern "C" fn vs_ex_fold() {
    folds(6, None)
}
#[no_mangle]
pub extern "C" fn vs_ex_fold_more() {
    folds(8, None)
}

/// The runtime goes on at once, and what blocks ends in any order.
fn races(n: usize) {
    ::vfs::start(files());
    let (task, mut told) = exporter(ExportUserConfig { count_words: bool("count"), ..pdf(TaskWhen::OnType, "$root/o/$dir/$name") });
    let mut ps = two(0);
    let mut seen = [Seen { path: "/w/o/a.pdf", at: 0 }, Seen { path: "/w/o/d/b.pdf", at: 0 }];
    let mut counts = Vec::new();
    for _ in 0..n {
        match pick("step", 3) {
            k @ 0..=1 => {
                let text = ps[k].text('s');
                let art = ps[k].compiled(text, edited());
                task.signal(&art);
            }
            _ => {
                let n = tokio::task::waiting();
                if n == 0 || !tokio::task::work(pick("task", n.min(3))) {
                    vsym::end();
                }
                seen.iter_mut().zip(&ps).for_each(|(s, p)| s.look(p));
            }
        }
        tokio::turn();
    }
    rest();
    for (s, p) in seen.iter_mut().zip(&ps) {
        s.look(p);
        check(s.at == p.texts.len(), "the newest document that was to be exported is");
    }
    while let Ok(EditorRequest::WordCount(id, words)) = told.try_recv() {
        counts.push((id, words));
    }
    for p in &ps {
        let last = counts.iter().rev().find(|c| c.0 == p.id).map(|c| &c.1);
        check(last.is_none_or(|l| Some(l) == p.texts.last()), "the count that is told last is of the newest document");
    }
    cover("end");
}
#[no_mangle]
pub extern "C" fn vs_ex_race() {
    races(6)
}
#[no_mangle]
pub extern "C" fn vs_ex_race_more() {
    races(8)
}

/// The settings change while documents are exported: what was to be exported
/// is exported as it was to be.
#[no_mangle]
pub extern "C" fn vs_ex_config() {
    ::vfs::start(files());
    let settings = |k: usize| pdf([TaskWhen::OnType, TaskWhen::OnType, TaskWhen::Never][k], ["/o/1", "/o/2", "/o/3"][k]);
    let (task, _) = exporter(settings(0));
    let mut p = Project::new("primary", "/w", "/a.typ", 0);
    let mut now = 0;
    let mut asked: Vec<(usize, String)> = vec![];
    for _ in 0..5 {
        match pick("step", 4) {
            0 => {
                let text = p.text('s');
                let art = p.compiled(text.clone(), edited());
                task.signal(&art);
                if now < 2 {
                    asked.push((now, text));
                }
            }
            1 => {
                now = pick("settings", 3);
                task.clone().change_config(settings(now));
            }
            2 => {
                tokio::turn();
            }
            _ => {
                if !tokio::task::work(0) {
                    vsym::end();
                }
            }
        }
    }
    rest();
    for k in 0..3 {
        if let Some(got) = read(["/o/1.pdf", "/o/2.pdf", "/o/3.pdf"][k]) {
            check(asked.iter().any(|a| a.0 == k && format!("pdf {}", a.1).into_bytes() == got), "a document goes where it was to go");
        }
    }
    if let Some((k, text)) = asked.last() {
        check(read(["/o/1.pdf", "/o/2.pdf"][*k]) == Some(format!("pdf {text}").into_bytes()), "the newest document goes where it was to go");
        cover("asked");
    }
}

/// Words are counted of the newest document of each project.
#[no_mangle]
pub extern "C" fn vs_ex_count() {
    ::vfs::start(files());
    let count_words = bool("count");
    let (task, mut told) = exporter(ExportUserConfig { count_words, ..pdf(TaskWhen::Never, "/o/x") });
    let mut ps = two(2);
    let mut at: HashMap<ProjectInsId, usize> = HashMap::new();
    let mut hear = |ps: &[Project; 2]| {
        while let Ok(EditorRequest::WordCount(id, words)) = told.try_recv() {
            let p = ps.iter().find(|p| p.id == id).unwrap();
            let k = p.texts.iter().position(|t| *t == words);
            check(k.is_some(), "what is counted is a document of the project");
            let k = k.unwrap() + 1;
            let at = at.entry(id).or_default();
            check(k >= *at, "an older count does not follow a newer one");
            *at = k;
        }
        ps.each_ref().map(|p| at.get(&p.id).copied().unwrap_or(0))
    };
    for _ in 0..4 {
        match pick("step", 4) {
            k @ 0..=1 => {
                let text = ps[k].text(if bool("wrong") { '!' } else { 's' });
                let art = ps[k].compiled(text, edited());
                task.signal(&art);
            }
            2 => {
                tokio::turn();
            }
            _ => {
                if !tokio::task::work(0) {
                    vsym::end();
                }
            }
        }
        hear(&ps);
    }
    rest();
    let got = hear(&ps);
    for (p, got) in ps.iter().zip(got) {
        let good = p.texts.last().is_some_and(|t| !t.contains('!'));
        check(got == 0 || count_words, "words are counted only if they are to be");
        check(!good || !count_words || got == p.texts.len(), "the newest document is counted");
    }
    check(read("/o/x.pdf").is_none(), "counting words exports nothing");
    cover("end");
}

/// An export that fails leaves what was there, and does not hold up the next.
#[no_mangle]
pub extern "C" fn vs_ex_fault() {
    let mut s = files();
    s.dir("/o");
    s.file("/o/x.pdf", b"old");
    s.faults = |call| match call {
        "write" | "create" | "rename" | "mkdir" => &[::vfs::Fault::Any],
        _ => &[],
    };
    s.budget = 1;
    ::vfs::start(s);
    let deep = bool("deep");
    let (task, _) = exporter(pdf(TaskWhen::OnType, if deep { "/n/m/x" } else { "/o/x" }));
    let path = if deep { "/n/m/x.pdf" } else { "/o/x.pdf" };
    let was = read(path);
    let mut p = Project::new("primary", "/w", "/a.typ", 0);
    let text = p.text('s');
    let art = p.compiled(text.clone(), edited());
    task.signal(&art);
    let between = bool("between");
    if between {
        tokio::turn();
        let text = p.text('s');
        let art = p.compiled(text, edited());
        task.signal(&art);
        tokio::task::work(0);
    }
    rest();
    let mut s = ::vfs::stop();
    let hit = !s.hits.is_empty();
    s.budget = 0;
    ::vfs::start(s);
    let versions = p.versions();
    let now = read(path);
    if !hit {
        check(now == *versions.last().unwrap(), "the newest document is exported");
        cover("written");
    } else {
        check(now == was || versions[1..].contains(&now), "a failed export leaves what was there");
        cover("failed");
    }
    let text = p.text('s');
    let art = p.compiled(text.clone(), edited());
    task.signal(&art);
    rest();
    check(read(path) == Some(format!("pdf {text}").into_bytes()), "an export that fails does not hold up the next");
}

/// A document is exported as what the task says, to where it says.
#[no_mangle]
pub extern "C" fn vs_ex_where() {
    let mut s = files();
    s.dir("/x");
    ::vfs::start(s);
    let when = TaskWhen::OnType;
    let first = bool("first");
    let output = [None, Some(""), Some("$root/$dir/$name"), Some("$root/o/p/$name"), Some("/x/$dir/k.l"), Some("o/$name"), Some("$root/d"), Some("/x")][pick("output", 8)];
    let mut export = crate::model::ExportTask { when, output: output.map(PathPattern::new), transform: vec![] };
    if first {
        export.transform.push(ExportTransform::Pages { ranges: vec![Pages::FIRST] });
    } else if bool("gap") {
        export.transform.push(ExportTransform::Merge { gap: Some("1pt".into()) });
    }
    let (task, ext, tag) = match pick("task", 8) {
        0 => (ProjectTask::ExportPdf(ExportPdfTask { export, pdf_standards: vec![], creation_timestamp: None }), "pdf", "pdf "),
        1 => (
            ProjectTask::ExportPng(ExportPngTask { export, ppi: Scalar::try_from(144f32).unwrap(), fill: None }),
            "png",
            if first { "png1 " } else { "png " },
        ),
        2 => (ProjectTask::ExportSvg(ExportSvgTask { export }), "svg", if first { "svg1 " } else { "svg " }),
        3 => (ProjectTask::ExportHtml(ExportHtmlTask { export }), "html", "html "),
        4 => (ProjectTask::ExportSvgHtml(ExportHtmlTask { export }), "html", "svghtml "),
        5 => (ProjectTask::ExportMd(ExportMarkdownTask { export }), "md", "md "),
        6 => (ProjectTask::ExportText(ExportTextTask { export }), "txt", "text "),
        _ => {
            let output_extension = bool("extension").then(|| "q".to_string());
            let ext = if output_extension.is_some() { "q" } else { "json" };
            let task = QueryTask { export, format: "json".into(), output_extension, selector: "s".into(), field: None, one: false };
            (ProjectTask::Query(task), ext, "")
        }
    };
    let (exporter, _) = exporter(ExportUserConfig { task, ..pdf(when, "") });
    let mut p = Project::new("primary", "/w", "/d/a.b.typ", 0);
    let text = p.text('s');
    let art = p.compiled(text.clone(), edited());
    exporter.signal(&art);
    rest();
    let s = ::vfs::stop();
    let files: Vec<usize> = (0..s.inodes.len()).filter(|i| matches!(s.inodes[*i].kind, ::vfs::Kind::File(_))).collect();
    let stem = match output {
        None | Some("") | Some("$root/$dir/$name") => "/w/d/a.b",
        Some("$root/o/p/$name") => "/w/o/p/a.b",
        Some("/x/$dir/k.l") => "/x/d/k",
        _ => {
            check(files.is_empty(), "a path that cannot be exported to is refused");
            cover("refused");
            return;
        }
    };
    let want = if tag.is_empty() { "[null]".to_string() } else { format!("{tag}{text}") };
    check(s.content(&format!("{stem}.{ext}")) == Some(want.as_bytes()), "a document is exported as what and where the task says");
    cover("exported");
}
