use std::path::Path;
use std::sync::Arc;

use tinymist_std::fs::flock::Filesystem;
use tinymist_world::args::{PdfStandard, TaskWhen};
use tinymist_world::vfs::Vfs;
use tinymist_world::EntryState;
use typst::syntax::VirtualPath;
use vsym::{bool, check, cover, pick};

use crate::*;

pub fn start() {
    start_in("/w/d")
}
/// The current directory is not that of the lock file.
pub fn start_anywhere() {
    start_in(["/w", "/w/d", "/o"][pick("cwd", 3)])
}
fn start_in(cwd: &str) {
    let mut s = ::vfs::State::new();
    s.dir("/w");
    s.dir("/cache");
    s.dir("/o");
    s.dir("/w/d");
    s.cwd = s.walk(0, cwd.as_bytes(), true).unwrap().2.unwrap();
    ::vfs::start(s);
}
pub fn id(k: usize) -> Id {
    Id::new(["file:a.typ", "file:b.typ"][k].into())
}
fn resource(text: &str) -> ResourcePath {
    ResourcePath::from_user_sys(Path::new(text))
}
fn document(id: Id, k: usize) -> ProjectInput {
    ProjectInput {
        id,
        root: (k & 1 == 0).then(|| resource(".")),
        main: resource(["a.typ", "d/é\"b'.typ"][k & 1]),
        inputs: if k & 2 == 0 { vec![] } else { vec![("k".into(), "v".into()), ("é".into(), "".into())] },
        font_paths: if k & 2 == 0 { vec![] } else { vec![resource("f"), resource("g")] },
        system_fonts: k & 1 == 0,
        package_path: (k & 2 == 0).then(|| resource("p")),
        package_cache_path: None,
    }
}
fn export(k: usize) -> ExportTask {
    let mut e = ExportTask { when: [TaskWhen::OnType, TaskWhen::Never, TaskWhen::OnSave][k % 3], output: (k & 1 == 0).then(|| PathPattern::new("$root/$name")), transform: vec![] };
    match k {
        0 => (),
        1 => e.transform.push(ExportTransform::Pages { ranges: vec![Pages::FIRST, "2-3".parse().unwrap()] }),
        2 => e.transform.push(ExportTransform::Merge { gap: None }),
        3 => e.transform.push(ExportTransform::Merge { gap: Some("1pt".into()) }),
        4 => e.transform.push(ExportTransform::Script { script: Some("\"é\"".into()) }),
        _ => {
            e.apply_pretty();
            e.transform.push(ExportTransform::Merge { gap: Some("\n".into()) });
        }
    }
    e
}
fn task_of(kind: usize, export: ExportTask, more: bool) -> ProjectTask {
    match kind {
        0 => ProjectTask::ExportPdf(ExportPdfTask {
            export,
            pdf_standards: if more { vec![PdfStandard::V_1_7] } else { vec![] },
            creation_timestamp: more.then_some(-1),
        }),
        1 => ProjectTask::ExportPng(ExportPngTask { export, ppi: Scalar::try_from(144f32).unwrap(), fill: more.then(|| "#fff".into()) }),
        2 => ProjectTask::ExportSvg(ExportSvgTask { export }),
        3 => ProjectTask::ExportHtml(ExportHtmlTask { export }),
        4 => ProjectTask::ExportSvgHtml(ExportHtmlTask { export }),
        5 => ProjectTask::ExportMd(ExportMarkdownTask { export }),
        6 => ProjectTask::ExportText(ExportTextTask { export }),
        7 => ProjectTask::Query(QueryTask {
            export,
            format: "json".into(),
            output_extension: more.then(|| "x".into()),
            selector: "<a>".into(),
            field: more.then(|| "value".into()),
            one: more,
        }),
        _ => ProjectTask::Preview(PreviewTask { when: export.when }),
    }
}
/// What is to be in the file, as it was put there.
#[derive(Default)]
struct Model {
    documents: Vec<ProjectInput>,
    tasks: Vec<ApplyProjectTask>,
    routes: Vec<ProjectRoute>,
}
fn put<T>(all: &mut Vec<T>, new: T, same: impl Fn(&T) -> bool) {
    all.retain(|t| !same(t));
    all.push(new);
}
impl Model {
    fn document(&mut self, d: ProjectInput) {
        let id = d.id.clone();
        put(&mut self.documents, d, |o| o.id == id);
    }
    fn task(&mut self, t: ApplyProjectTask) {
        let id = t.id.clone();
        put(&mut self.tasks, t, |o| o.id == id);
    }
    fn route(&mut self, r: ProjectRoute) {
        let id = r.id.clone();
        put(&mut self.routes, r, |o| o.id == id);
    }
    fn check(&self) {
        let got = LockFile::read(Path::new("/w"));
        check(got.is_ok(), "a lock file that was written can be read");
        let got = got.unwrap();
        check(got.document.len() == self.documents.len() && self.documents.iter().all(|d| got.get_document(&d.id) == Some(d)), "the documents are those that were put there");
        check(got.task.len() == self.tasks.len() && self.tasks.iter().all(|t| got.get_task(t.id()) == Some(t)), "the tasks are those that were put there");
        check(got.route[..] == self.routes[..], "the routes are those that were put there, in order");
    }
}
fn content() -> Option<Vec<u8>> {
    std::fs::read("/w/tinymist.lock").ok()
}
fn update(f: impl FnOnce(&mut LockFile)) {
    let done = LockFile::update(Path::new("/w"), |l| {
        f(l);
        Ok(())
    });
    check(done.is_ok(), "a lock file is brought up to date");
}
/// Documents, tasks and routes are put there, one by one.
fn keeps(n: usize) {
    start();
    let mut m = Model::default();
    let mut there = false;
    for _ in 0..n {
        match pick("step", 4) {
            0 => {
                let d = document(id(pick("id", 2)), pick("document", 2) * 3);
                update(|l| l.replace_document(d.clone()));
                m.document(d);
            }
            1 => {
                let task = task_of(pick("task", 2) * 7, export(0), false);
                let t = ApplyProjectTask { id: id(pick("id", 2)), document: id(pick("of", 2)), task };
                update(|l| l.replace_task(t.clone()));
                m.task(t);
            }
            2 => {
                let r = ProjectRoute { id: id(pick("id", 2)), priority: pick("priority", 2) as u32 };
                update(|l| l.replace_route(r.clone()));
                m.route(r);
            }
            _ => {
                // What fails changes nothing.
                let was = content().filter(|c| !c.is_empty());
                let failed = LockFile::update(Path::new("/w"), |l| {
                    l.replace_route(ProjectRoute { id: id(0), priority: 9 });
                    tinymist_std::bail!("no")
                });
                check(failed.is_err(), "an update that fails says so");
                check(content().filter(|c| !c.is_empty()) == was, "an update that fails leaves the file");
                if was.is_none() {
                    continue;
                }
            }
        }
        there = true;
        m.check();
    }
    if there {
        let was = content();
        update(|_| ());
        check(content() == was, "an update that changes nothing leaves the file");
        cover("end");
    }
}
#[no_mangle]
pub extern "C" fn vs_lock_keep() {
    keeps(3)
}
#[no_mangle]
pub extern "C" fn vs_lock_keep_more() {
    keeps(4)
}
/// Every task is read back.
#[no_mangle]
pub extern "C" fn vs_lock_task() {
    start();
    let mut m = Model::default();
    let d = document(id(0), pick("document", 4));
    let t = ApplyProjectTask { id: id(0), document: id(0), task: task_of(pick("task", 9), export(pick("export", 6)), bool("more")) };
    let r = ProjectRoute { id: id(0), priority: [0, 1, u32::MAX][pick("priority", 3)] };
    update(|l| {
        l.replace_document(d.clone());
        l.replace_task(t.clone());
        l.replace_route(r.clone());
    });
    m.document(d);
    m.task(t);
    m.route(r);
    m.check();
    if bool("again") {
        // A second task, behind the first.
        let t = ApplyProjectTask { id: id(1), document: id(0), task: task_of(2, export(0), false) };
        update(|l| l.replace_task(t.clone()));
        m.task(t);
        m.check();
    }
    cover("end");
}
fn texts(n: usize) {
    start();
    let text: String = (0..n)
        .map(|_| {
            let c = vsym::u8("char");
            vsym::assume(c < 0x80);
            c as char
        })
        .collect();
    let mut m = Model::default();
    match pick("where", 3) {
        0 => {
            let d = ProjectInput { main: ResourcePath::from_file_id(typst::syntax::FileId::new(None, VirtualPath::new("a"))), inputs: vec![("k".into(), text)], ..document(id(0), 0) };
            update(|l| l.replace_document(d.clone()));
            m.document(d);
        }
        1 => {
            let r = ProjectRoute { id: Id::new(text), priority: 0 };
            update(|l| l.replace_route(r.clone()));
            m.route(r);
        }
        _ => {
            let task = ProjectTask::Query(QueryTask { export: export(0), format: "json".into(), output_extension: None, selector: text, field: None, one: false });
            let t = ApplyProjectTask { id: id(0), document: id(0), task };
            update(|l| l.replace_task(t.clone()));
            m.task(t);
        }
    }
    m.check();
    cover("end");
}
/// Every text is read back.
#[no_mangle]
pub extern "C" fn vs_lock_text() {
    texts(1)
}
#[no_mangle]
pub extern "C" fn vs_lock_text_more() {
    texts(2)
}
/// A file of another version is left as it is.
#[no_mangle]
pub extern "C" fn vs_lock_version() {
    start();
    let head = [
        "version = \"0.1.0-beta1\"\n",
        "version = \"0.1.0\"\n",
        "version = \"0.1.0-beta0\"\n",
        "version = \"x\"\n",
        "version = \"0.1.0-alpha\"\n",
        "version = 1\n",
        "",
        "version =",
        "\u{fffd}=",
        "  \n",
    ];
    let k = pick("version", head.len());
    let old = format!("{}{}", head[k], if bool("route") && k != 9 { "[[route]]\nid = \"a\"\npriority = 1\n" } else { "" });
    std::fs::write("/w/tinymist.lock", &old).unwrap();
    let r = ProjectRoute { id: id(1), priority: 0 };
    let done = LockFile::update(Path::new("/w"), |l| {
        l.replace_route(r.clone());
        Ok(())
    });
    if k == 2 || old.trim().is_empty() {
        check(done.is_ok(), "a lock file is brought up to date");
        let got = LockFile::read(Path::new("/w")).unwrap();
        check(got.route.last() == Some(&r) && got.route.len() == 1 + old.contains("route") as usize, "what was there is kept");
        cover("read");
    } else {
        check(done.is_err(), "a file of another version is refused");
        check(LockFile::read(Path::new("/w")).is_err(), "a file of another version is refused");
        check(content() == Some(old.into_bytes()), "a file of another version is left as it is");
        cover("refused");
    }
}
/// No one else has the file meanwhile.
#[no_mangle]
pub extern "C" fn vs_lock_held() {
    start();
    let fs = Filesystem::new("/w".into());
    let read = bool("read");
    if bool("there") {
        update(|l| l.replace_route(ProjectRoute { id: id(0), priority: 0 }));
    }
    let done = LockFile::update(Path::new("/w"), |_| {
        if read {
            let other = fs.try_open_ro_shared_create(LOCK_FILENAME);
            check(matches!(other, Ok(None)), "no one reads what is being written");
        } else {
            let other = fs.try_open_rw_exclusive_create(LOCK_FILENAME);
            check(matches!(other, Ok(None)), "one writes at a time");
        }
        Ok(())
    });
    check(done.is_ok(), "a lock file is brought up to date");
    check(matches!(fs.try_open_rw_exclusive_create(LOCK_FILENAME), Ok(Some(_))), "the file is free again");
    cover("end");
}
/// What is compiled is written down.
#[no_mangle]
pub extern "C" fn vs_lock_commit() {
    start_anywhere();
    let main = ["/a.typ", "/d/b.typ"][pick("main", 2)];
    let entry = EntryState::new_rooted(Path::new("/w").into(), Some(VirtualPath::new(main)));
    let mut verse: LspUniverse =
        tinymist_world::CompilerUniverse::new_raw(entry, Default::default(), None, Vfs::new(Arc::new(Roots), Disk), Arc::new(Packages), Arc::new(Fonts(1)));
    verse.increment_revision(|_| ());
    let world = verse.snapshot();
    let mut m = Model::default();
    let other = bool("other").then(|| document(id(0), 3));
    if let Some(d) = other {
        update(|l| l.replace_document(d.clone()));
        m.document(d);
    }
    let mut u = update_lock(Path::new("/w").into());
    let doc = u.compiled(&world);
    check(doc.is_some(), "what is compiled has an id");
    let doc = doc.unwrap();
    let t = ApplyProjectTask { id: doc.clone(), document: doc.clone(), task: task_of(0, export(pick("export", 2)), false) };
    u.task(t.clone());
    u.route(doc.clone(), 3);
    if bool("files") {
        u.update_materials(doc.clone(), [Path::new("/w/b.typ").into(), Path::new("/w/a.typ").into()].into_iter().collect());
    }
    u.commit();
    let got = LockFile::read(Path::new("/w"));
    check(got.is_ok(), "a lock file that was written can be read");
    let got = got.unwrap();
    let d = got.get_document(&doc);
    check(d.is_some(), "what is compiled is there");
    let d = d.unwrap().clone();
    let at = |p: &ResourcePath| p.to_abs_path(Path::new("/w")).map(|p| tinymist_std::path::PathClean::clean(&p));
    check(at(&d.main) == Some(Path::new("/w").join(&main[1..])), "the main file is that of the document");
    check(d.root.as_ref().and_then(at) == Some("/w".into()), "the root is that of the document");
    check(d.font_paths.len() == 1 && at(&d.font_paths[0]) == Some("/f".into()), "the fonts are those of the document");
    m.document(d);
    m.task(t);
    m.route(ProjectRoute { id: doc, priority: 3 });
    m.check();
    cover("end");
}
