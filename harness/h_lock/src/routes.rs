//! Which document a file is shown with.
use std::path::Path;
use std::sync::Arc;

use tinymist_std::ImmutPath;
use tinymist_world::vfs::{Vfs, WorkspaceResolver};
use tinymist_world::{EntryReader, EntryState};
use typst::syntax::VirtualPath;
use typst::World;
use vsym::{bool, check, cover, pick};

use crate::locks::{id, start, start_anywhere};
use crate::route::{ProjectResolution, ProjectRouteState};
use crate::entries::ProjectResolutionKind;
use crate::server::ServerState;
use crate::*;

const DIRS: [&str; 3] = ["/w", "/w/d", "/o"];
const FILES: [&str; 6] = ["/w/x", "/w/d/y", "/w/d/e/z", "/o/x", "/w/a.typ", "/w/b.typ"];

/// What was written down below one directory.
#[derive(Default, Clone)]
struct Dir {
    /// The routes, the last of which counts.
    routes: Vec<usize>,
    /// The files of each document.
    files: [Vec<usize>; 2],
    wrote: [bool; 2],
}
impl Dir {
    fn of(&self, file: usize) -> Option<usize> {
        self.routes.iter().rev().copied().find(|d| self.files[*d].contains(&file))
    }
}
fn commit(dir: usize, doc: usize, files: Option<&[usize]>, route: bool) {
    let mut u = update_lock(Path::new(DIRS[dir]).into());
    if let Some(files) = files {
        u.update_materials(id(doc), files.iter().map(|f| Path::new(FILES[*f]).into()).collect());
    }
    if route {
        u.route(id(doc), 0);
    }
    u.commit();
}
fn write(all: &mut [Dir; 3], dir: usize) {
    let doc = pick("document", 2);
    let files = match pick("files", 5) {
        0 => Some(vec![]),
        1 => Some(vec![0]),
        2 => Some(vec![1, 0]),
        3 => Some(vec![2, 3]),
        _ => None,
    };
    let route = files.is_none() || bool("route");
    commit(dir, doc, files.as_deref(), route);
    let d = &mut all[dir];
    if let Some(f) = files {
        d.files[doc] = f;
        d.wrote[doc] = true;
    }
    if route {
        d.routes.retain(|o| *o != doc);
        d.routes.push(doc);
    }
}
/// The directories that are asked, the nearest first.
fn above(file: usize) -> &'static [usize] {
    match file {
        0 => &[0],
        1 | 2 => &[1, 0],
        _ => &[2],
    }
}
fn same(got: &Option<ProjectResolution>, want: Option<(usize, usize)>) {
    check(got.is_some() == want.is_some(), "a file has a document where one is written down");
    if let (Some(g), Some((dir, doc))) = (got, want) {
        check(&*g.lock_dir == Path::new(DIRS[dir]), "the nearest lock file that knows the file counts");
        check(g.project_id == id(doc), "the last route to a document that has the file counts");
    }
}
fn routes(n: usize) {
    start();
    let mut all: [Dir; 3] = Default::default();
    for k in 0..n {
        write(&mut all, if k == 0 { 0 } else { pick("dir", 3) });
    }
    let file = pick("file", 4);
    let want = above(file).iter().find_map(|d| Some((*d, all[*d].of(file)?)));
    let mut s = ProjectRouteState::default();
    let leaf: ImmutPath = Path::new(FILES[file]).into();
    let got = s.resolve(&leaf);
    same(&got, want);
    if let Some(got) = got {
        let lock = s.locate(&got);
        check(lock.is_some(), "the lock file of a document is known");
        check(*lock.unwrap() == LockFile::read(&got.lock_dir).unwrap(), "the lock file of a document is the one that is there");
        cover("found");
    } else {
        cover("none");
    }
    // It is so for as long as nothing is said of a change.
    same(&s.resolve(&leaf), want);
}
/// What a file belongs to is found by what was written down.
#[no_mangle]
pub extern "C" fn vs_route_of() {
    routes(2)
}
#[no_mangle]
pub extern "C" fn vs_route_of_more() {
    routes(3)
}
/// A file is shown with the document that it was last compiled for.
#[no_mangle]
pub extern "C" fn vs_route_main() {
    start_anywhere();
    let mut s = ServerState::default();
    // How roots are known; and with no lock files at all.
    let kind = pick("config", 6);
    let single = kind == 4;
    s.config.entry_resolver.project_resolution = if single { ProjectResolutionKind::SingleFile } else { ProjectResolutionKind::LockDatabase };
    s.config.entry_resolver.roots = [vec![], vec!["/w"], vec!["/w/d", "/w"], vec!["/w/d"], vec!["/w"], vec!["/"]][kind].iter().map(|r| Path::new(r).into()).collect();
    if kind == 3 {
        s.config.entry_resolver.root_path = Some(Path::new("/w").into());
    }
    let mut all = Dir::default();
    for _ in 0..pick("times", 3) {
        let main = pick("compiled", 2);
        let deps: &[usize] = [&[][..], &[0, 1][..], &[2][..]][pick("deps", 3)];
        let snap = compiled(main, deps);
        let mut u = update_lock(Path::new("/w").into());
        let doc = u.compiled(&snap.world);
        check(doc.as_ref() == Some(&id(main)), "the id of a document is that of its main file");
        u.update_materials(id(main), snap.world.depended_fs_paths());
        u.route(id(main), 0);
        u.commit();
        all.files[main] = deps.to_vec();
        all.files[main].push(4 + main);
        all.routes.retain(|o| *o != main);
        all.routes.push(main);
    }
    let file = pick("file", FILES.len());
    let leaf: ImmutPath = Path::new(FILES[file]).into();
    let main = if single { None } else { all.of(file) };
    let inputs = if bool("or") { s.resolve_task_or(Some(leaf.clone())) } else { s.resolve_task(leaf.clone()) };
    check(inputs.entry.is_some(), "there is a file to compile");
    let entry = inputs.entry.unwrap();
    let (root, vpath) = (entry.root(), entry.main().map(|m| m.vpath().as_rooted_path().to_owned()));
    check(root.is_some() && vpath.is_some(), "there is a file to compile");
    let (root, vpath) = (root.unwrap(), vpath.unwrap());
    match main {
        Some(d) => {
            check(&*root == Path::new("/w"), "the root is that of the document");
            check(vpath == Path::new(FILES[4 + d]).strip_prefix("/w").map(|p| Path::new("/").join(p)).unwrap(), "a file is shown with the document that has it");
            cover("document");
        }
        None => {
            let e = &s.config.entry_resolver;
            let want = match &e.root_path {
                Some(r) => Some(r.clone()),
                None => e.roots.iter().find(|r| leaf.starts_with(r)).or(e.roots.first()).cloned(),
            };
            let want = want.filter(|r| leaf.starts_with(r)).or(leaf.parent().map(|p| p.into()));
            check(Some(root.clone()) == want, "a file of no document has a root of its own");
            check(root.join(vpath.strip_prefix("/").unwrap()) == *leaf, "a file of no document is shown by itself");
            cover("alone");
        }
    }
}
fn compiled(main: usize, files: &[usize]) -> LspCompileSnapshot {
    let main = ["/a.typ", "/b.typ"][main];
    let entry = EntryState::new_rooted(Path::new("/w").into(), Some(VirtualPath::new(main)));
    let mut verse: LspUniverse =
        tinymist_world::CompilerUniverse::new_raw(entry, Default::default(), None, Vfs::new(Arc::new(Roots), Disk), Arc::new(Packages), Arc::new(Fonts(1)));
    verse.increment_revision(|_| ());
    let world = verse.snapshot();
    let _ = world.source(world.main());
    let root = world.entry_state().root().unwrap();
    for f in files {
        let path = Path::new(FILES[*f]).strip_prefix("/w").unwrap();
        let _ = world.source(WorkspaceResolver::workspace_file(Some(&root), VirtualPath::new(path)));
    }
    LspCompileSnapshot { world }
}
/// What was found is kept up to date by what is said of changes.
fn kept(n: usize) {
    start();
    let mut all: [Dir; 3] = Default::default();
    let mut s = ProjectRouteState::default();
    let lock_dir: ImmutPath = Path::new("/w").into();
    // What the routes in memory go by.
    let mut known: Option<Dir> = None;
    // A document that is in memory or is not.
    commit(0, 0, Some(&[0]), true);
    all[0] = Dir { routes: vec![0], files: [vec![0], vec![]], wrote: [true, false] };
    for k in 0..=n + 1 {
        let step = if k == 0 || k > n { 2 } else { pick("step", 3) };
        match step {
            0 => {
                write(&mut all, 0);
                let lock = LockFile::read(&lock_dir).unwrap();
                let done = s.update_lock(lock_dir.clone(), lock);
                check(done.is_some() == known.is_some(), "what is not in memory is not changed");
                if let Some(k) = &mut known {
                    k.routes = all[0].routes.clone();
                    cover("changed");
                }
            }
            1 => {
                let doc = pick("compiled", 2);
                let files: &[usize] = [&[][..], &[0, 1][..], &[2][..]][pick("deps", 3)];
                let done = s.update_existing_material(lock_dir.clone(), &compiled(doc, files));
                let has = known.as_ref().is_some_and(|k| k.wrote[doc]);
                check(done.is_some() == has, "the files of a document that is not written down are not kept");
                if has {
                    known.as_mut().unwrap().files[doc] = files.to_vec();
                }
            }
            _ => {
                let file = if k == 0 { pick("first", 2) } else { pick("file", 3) };
                let leaf: ImmutPath = Path::new(FILES[file]).into();
                let got = s.resolve(&leaf);
                if known.is_none() && all[0].of(file).is_some() {
                    known = Some(all[0].clone());
                }
                let want = known.as_ref().and_then(|k| Some((0, k.of(file)?)));
                same(&got, want);
                cover("asked");
            }
        }
    }
    cover("end");
}
#[no_mangle]
pub extern "C" fn vs_route_kept() {
    kept(2)
}
#[no_mangle]
pub extern "C" fn vs_route_kept_more() {
    kept(3)
}
