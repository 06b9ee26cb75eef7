//! The main file: pinned, by default, or in focus.
use crate::docs::open;
use crate::sim::*;
use crate::*;
use serde_json::Value;
use std::path::{Path, PathBuf};
use tinymist_std::ImmutPath;
use tinymist_world::args::TaskWhen;
use vsym::{bool, check, cover, pick};

fn some_file() -> Option<usize> {
    match pick("file", 3) {
        0 => Some(A),
        1 => Some(C),
        _ => None,
    }
}
fn arg(f: Option<usize>) -> Vec<Value> {
    vec![f.map_or(Value::Null, |f| Value::String(FILES[f].into()))]
}

/// Files are pinned, released, focused, opened and looked at.
fn mains(n: usize, rest: bool) {
    let default = bool("default").then_some(B);
    let mut s = Sim::with(config(default, TaskWhen::Never), default);
    for f in [A, B, C] {
        let t = s.text('s');
        s.write(f, Some(t));
    }
    let mut pinned = None;
    let mut preview = None;
    let (mut focus, mut commanded, mut looked) = (None, false, false);
    // With none of the settings in force, the file stays that was the main one.
    let mut main = default;
    for _ in 0..n {
        match pick("what", 5) {
            0 => {
                let f = some_file();
                check(s.sv.pin_document(arg(f)).is_ok(), "a file is pinned");
                pinned = f;
                main = f.or(default).or(focus);
            }
            1 => {
                let f = some_file();
                check(s.sv.focus_document(arg(f)).is_ok(), "a file is focused");
                (focus, commanded) = (f, true);
                if pinned.is_none() && preview != Some(false) && default.is_none() {
                    main = f;
                }
            }
            2 => {
                let f = if bool("which") { A } else { C };
                let t = s.text('s');
                s.mem[f] = Some(t.clone());
                s.said.push((t.clone(), f));
                check(open(&mut s.sv, f, t).is_ok(), "a document is opened");
                if !commanded && !looked {
                    focus = Some(f);
                    if pinned.is_none() && preview != Some(false) && default.is_none() {
                        main = focus;
                    }
                }
            }
            3 => {
                let f = if bool("which") { A } else { C };
                let site = ['h', 'f', 't'][pick("site", 3)];
                s.sv.implicit_focus_entry(|| Some(path(f)), site);
                if !commanded {
                    (looked, focus) = (true, Some(f));
                    if pinned.is_none() && preview != Some(false) && default.is_none() {
                        main = focus;
                    }
                }
            }
            // As a preview of the primary project does it.
            _ => {
                if preview.take().is_some() {
                    s.sv.set_pin_by_preview(false, false);
                } else {
                    let browsing = bool("browsing");
                    s.sv.set_pin_by_preview(true, browsing);
                    preview = Some(browsing);
                }
            }
        }
        let now = s.sv.project.compiler.primary.verse.entry_state().main();
        check(now == main.map(file_id), "the main file is the one pinned, by default, or in focus");
        check(s.sv.focusing.as_deref() == focus.map(path).as_deref(), "the file in focus is known");
    }
    if rest {
        s.mains[0].1 = main;
        if main.is_some() && main != default {
            s.rest();
            s.check_rest();
        }
    }
    cover("end");
}
#[no_mangle]
pub extern "C" fn vs_main_which() {
    mains(4, false)
}
#[no_mangle]
pub extern "C" fn vs_main_which_more() {
    mains(5, false)
}
#[no_mangle]
pub extern "C" fn vs_main_result() {
    mains(3, true)
}
#[no_mangle]
pub extern "C" fn vs_main_result_more() {
    mains(4, true)
}

/// Where the root is of a file, by the settings.
#[no_mangle]
pub extern "C" fn vs_main_root() {
    let of = |p: &[&str]| -> Vec<ImmutPath> { p.iter().map(|p| Path::new(p).into()).collect() };
    let roots = [of(&[]), of(&["/w"]), of(&["/x", "/w"]), of(&["/w/sub", "/x"])];
    let roots = roots[pick("roots", 4)].clone();
    let root_path = [None, Some("/w"), Some("/x/y")][pick("root", 3)].map(|p| ImmutPath::from(Path::new(p)));
    let files = ["/w/a.typ", "/w/sub/a.typ", "/wx/a.typ", "/x/y/a.typ", "/a.typ", "/untitled/n"];
    let file = Path::new(files[pick("file", files.len())]);
    let mut c = config(None, TaskWhen::Never);
    c.entry_resolver.roots = roots.clone();
    c.entry_resolver.root_path = root_path.clone();
    let mut s = Sim::with(c, None);
    let mut packages = vec![];
    let mut fs = ::vfs::State::new();
    for dir in ["/w", "/w/sub", "/wx", "/x", "/x/y"] {
        fs.dir(dir);
        if dir != "/wx" && file.starts_with(dir) && bool("package") {
            fs.file(&format!("{dir}/typst.toml"), b"");
            packages.push(dir);
        }
    }
    ::vfs::start(fs);
    for again in [false, true, true] {
        let done = s.sv.change_main_file(Some(file.into()));
        check(done.is_ok(), "the main file is changed");
        let verse = &s.sv.project.compiler.primary.verse;
        let entry = verse.entry_state();
        let now = entry.main().and_then(|f| verse.path_for_id(f).ok()).and_then(|p| p.to_err().ok());
        check(now.as_deref() == Some(file), "the main file is the file asked for");
        let given = root_path.clone().or_else(|| roots.iter().find(|r| file.starts_with(r)).cloned());
        let given = match given {
            Some(r) => file.starts_with(&r).then_some(r),
            None => packages.last().map(|p| Path::new(p).into()),
        };
        let root = given.unwrap_or_else(|| file.parent().unwrap().into());
        check(entry.root().as_deref() == Some(&*root), "the root is that of the settings, of the package, or where the file is");
        if again {
            cover("again");
        }
        // The package is no more one, or remains.
        if !packages.is_empty() && bool("remove") {
            let dir = packages.pop().unwrap();
            let _ = std::fs::remove_file(Path::new(dir).join("typst.toml"));
        }
    }
    let was = s.sv.project.compiler.primary.verse.entry_state();
    let done = s.sv.change_main_file(Some(PathBuf::from("w/a.typ").as_path().into()));
    check(done.is_err(), "a path that leads nowhere is refused");
    check(s.sv.project.compiler.primary.verse.entry_state() == was, "a refused file is not the main one");
}
/// The file that is the main one by the settings.
#[no_mangle]
pub extern "C" fn vs_main_default() {
    ::vfs::start(::vfs::State::new());
    let relative = bool("relative");
    let root_path = [None, Some("/w"), Some("/x")][pick("root", 3)].map(|p| ImmutPath::from(Path::new(p)));
    let with_roots = bool("roots");
    let mut c = config(None, TaskWhen::Never);
    c.entry_resolver.entry = Some(Path::new(if relative { "a.typ" } else { "/w/a.typ" }).into());
    c.entry_resolver.root_path = root_path.clone();
    c.entry_resolver.roots = if with_roots { vec![Path::new("/w").into()] } else { vec![] };
    let root = root_path.or(with_roots.then(|| Path::new("/w").into()));
    let want = if relative { root.map(|r| r.join("a.typ")) } else { Some("/w/a.typ".into()) };
    let s = Sim::with(c, None);
    let verse = &s.sv.project.compiler.primary.verse;
    let now = verse.entry_state().main().and_then(|f| verse.path_for_id(f).ok()).and_then(|p| p.to_err().ok());
    check(now == want, "the default main file is in the root");
    cover("end");
}
