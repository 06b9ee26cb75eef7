//! Which file an id names: workspace roots and virtual paths.
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tinymist_vfs::{FileId, PathResolution, RootResolver, WorkspaceResolution, WorkspaceResolver};
use typst::diag::{FileError, FileResult};
use typst::syntax::package::{PackageSpec, PackageVersion};
use typst::syntax::VirtualPath;

type ImmutPath = Arc<Path>;

struct Roots;
impl RootResolver for Roots {
    fn resolve_package_root(&self, p: &PackageSpec) -> FileResult<ImmutPath> {
        if p.name == "there" {
            return Ok(Path::new("/pkg/there").into());
        }
        Err(FileError::NotFound("package".into()))
    }
}
/// The names a path goes through, without the detours.
fn clean(p: &[u8]) -> Vec<&[u8]> {
    let mut out: Vec<&[u8]> = vec![];
    for n in p.split(|c| *c == b'/') {
        match n {
            b"" | b"." => (),
            b".." => drop(out.pop()),
            n => out.push(n),
        }
    }
    out
}
/// A path of `n` bytes below `/`, of slashes, dots and two letters.
fn some_path(name: &str, n: usize) -> String {
    let mut s = String::from("/");
    for _ in 0..n {
        s.push(['/', '.', 'a', 'b'][vsym::pick(name, 4)]);
    }
    s
}
fn in_workspace(id: FileId) -> bool {
    matches!(WorkspaceResolver::resolve(id), Ok(WorkspaceResolution::Workspace(_)))
}

/// Two roots, each spelled in some way, and the first one again.
#[no_mangle]
pub extern "C" fn vs_p_intern() {
    let long = vsym::bool("long");
    let a = if long { some_path("root", 4) } else { some_path("root", 2) };
    let b = if long { ["/", "/a", "/a/b/", "/b/../a", "/a/./b"][vsym::pick("other", 5)].to_string() } else { some_path("other", 2) };
    let [pa, pb]: [ImmutPath; 2] = [Path::new(&a).into(), Path::new(&b).into()];
    let ids = [&pa, &pb, &pa, &pb].map(WorkspaceResolver::workspace_id);
    vsym::check(ids[0] == ids[2] && ids[1] == ids[3], "a root has one id for life");
    vsym::check((ids[0] == ids[1]) == (clean(a.as_bytes()) == clean(b.as_bytes())), "two roots have one id just if they are one directory");
    let f = VirtualPath::new("/f");
    let files = [&pa, &pb].map(|p| WorkspaceResolver::workspace_file(Some(p), f.clone()));
    vsym::check((files[0] == files[1]) == (ids[0] == ids[1]), "a file has one id just if its root has one");
    for (id, p) in [(ids[0], &a), (ids[1], &b)] {
        vsym::check(clean(id.path().as_os_str().as_encoded_bytes()) == clean(p.as_bytes()), "the id of a root names the root");
    }
    vsym::cover(if ids[0] == ids[1] { "one" } else { "two" });
}
/// A file is found below its root, or not at all.
#[no_mangle]
pub extern "C" fn vs_p_inside() {
    let root: ImmutPath = Path::new(["/w", "/w/r", "/w/r/../s/"][vsym::pick("root", 3)]).into();
    let path = some_path("path", 5);
    let kind = vsym::pick("kind", 5);
    let v = VirtualPath::new(if vsym::bool("relative") { &path[1..] } else { &path });
    let id = match kind {
        0 => WorkspaceResolver::workspace_file(Some(&root), v.clone()),
        1 => WorkspaceResolver::workspace_file(None, v.clone()),
        2 => WorkspaceResolver::rooted_untitled(Some(&root), v.clone()),
        3 => WorkspaceResolver::rootless_file(v.clone()),
        _ => FileId::new(
            Some(PackageSpec {
                namespace: "preview".into(),
                name: if vsym::bool("there") { "there" } else { "elsewhere" }.into(),
                version: PackageVersion { major: 0, minor: 0, patch: 0 },
            }),
            v.clone(),
        ),
    };
    vsym::check(WorkspaceResolver::is_workspace_file(id) == (kind == 0 || kind == 2), "a file of a workspace is told from others");
    vsym::check(WorkspaceResolver::is_package_file(id) == (kind == 4), "a file of a package is told from others");
    // how far the path goes above where it starts
    let mut depth = 0i32;
    let mut low = 0;
    for n in path.split('/') {
        match n {
            "" | "." => (),
            ".." => depth -= 1,
            _ => depth += 1,
        }
        low = low.min(depth);
    }
    let there = kind != 4 || id.package().unwrap().name == "there";
    let top = if kind == 4 { "/pkg/there".to_string() } else { root.to_str().unwrap().to_string() };
    match Roots.path_for_id(id) {
        Ok(PathResolution::Resolved(p)) => {
            vsym::check(kind == 0 || kind == 4 && there, "only a file with a root has a path");
            let mut want = clean(top.as_bytes());
            want.extend(clean(path.as_bytes()));
            vsym::check(clean(p.as_os_str().as_encoded_bytes()) == want, "a file is found where its path leads");
            vsym::check(low == 0, "a path that leaves its root is refused");
            vsym::check(!p.components().any(|c| c == std::path::Component::ParentDir), "the path of a file has no detour");
            vsym::cover("inside");
        }
        Ok(PathResolution::Rootless(p)) => {
            vsym::check(kind == 1 || kind == 2 || kind == 3, "a file with a root is found below it");
            vsym::check(*p == v, "a file without a root keeps its path");
            vsym::check(PathResolution::Rootless(p).to_err() == Err(FileError::AccessDenied), "a file without a root is not read from the disk");
            vsym::cover("rootless");
        }
        Err(e) => {
            vsym::check(low < 0 && (kind == 0 || kind == 4) || !there, "a file in its root is found");
            vsym::check(there == (e == FileError::AccessDenied), "a path that leaves its root is denied");
            vsym::cover("refused");
        }
    }
    let r = Roots.resolve_root(id);
    match kind {
        0 | 2 => vsym::check(r.is_ok_and(|r| r.is_some_and(|r| clean(r.as_os_str().as_encoded_bytes()) == clean(top.as_bytes()))), "the root of a file is its workspace"),
        1 | 3 => vsym::check(r == Ok(None), "a file without a workspace has no root"),
        _ => vsym::check(r.is_ok() == there, "the root of a package is where it was found"),
    }
}
/// Any package name a document may ask for.
#[no_mangle]
pub extern "C" fn vs_p_package() {
    let w: ImmutPath = Path::new("/w").into();
    let u: ImmutPath = Path::new("/u").into();
    WorkspaceResolver::workspace_id(&w);
    let n = vsym::pick("workspaces", 2) + 1;
    if n == 2 {
        WorkspaceResolver::workspace_id(&u);
    }
    let form = vsym::pick("namespace", 5);
    let (namespace, len) = match form {
        0 => ("ws".to_string(), vsym::pick("length", 7)),
        1 => ("preview".to_string(), 2),
        2 => (vsym::ascii("space", 2), 2),
        3 => (format!("ws{}", vsym::ascii("space", 1)), 2),
        _ => (["", "w", "wsp", "WS", "aws"][vsym::pick("odd", 5)].to_string(), 2),
    };
    let name = if form != 0 && vsym::bool("there") { "there".to_string() } else { vsym::ascii("name", len) };
    let patch = vsym::pick("patch", 3) as u32;
    let spec = PackageSpec { namespace: namespace.as_str().into(), name: name.as_str().into(), version: PackageVersion { major: 0, minor: 0, patch } };
    let ours = spec.namespace == "ws";
    let id = FileId::new(Some(spec), VirtualPath::new("/f"));
    vsym::check(WorkspaceResolver::is_workspace_file(id) == ours, "a file of a workspace is told from others");
    vsym::check(WorkspaceResolver::is_package_file(id) != ours, "a file of a package is told from others");
    let r = Roots.path_for_id(id);
    let shown = format!("{:?}", WorkspaceResolver::display(Some(id)));
    vsym::check(!shown.is_empty(), "any file can be shown");
    match r {
        Ok(PathResolution::Resolved(p)) if ours => {
            let k = if p == PathBuf::from("/w/f") { 0 } else { 1 };
            vsym::check(k == 0 || n == 2 && p == PathBuf::from("/u/f"), "the number of a workspace names its root");
            vsym::check(name.starts_with('p') && name[1..].parse::<u32>() == Ok(k), "the number of a workspace names its root");
            vsym::cover("workspace");
        }
        Ok(PathResolution::Rootless(_)) => vsym::check(ours && patch == 1, "a file of a package is found in the package"),
        Ok(PathResolution::Resolved(p)) => {
            vsym::check(name == "there" && p == PathBuf::from("/pkg/there/f"), "a file of a package is found in the package");
            vsym::cover("found");
        }
        Err(_) => {
            let known = name == "p0" || n == 2 && name == "p1";
            vsym::check(if ours { !known } else { name != "there" }, "a file of a workspace or a package that is there is found");
            vsym::cover("unknown");
        }
    }
}
/// The file of a path alone.
#[no_mangle]
pub extern "C" fn vs_p_alone() {
    let path = some_path("path", 5);
    let rel = vsym::bool("relative");
    let p = if rel { &path[1..] } else { &path };
    match WorkspaceResolver::file_with_parent_root(Path::new(p)) {
        Some(id) => {
            vsym::check(p.starts_with('/'), "a relative path has no root");
            let got = Roots.path_for_id(id).and_then(|r| r.to_err());
            vsym::check(got.is_ok_and(|g| clean(g.as_os_str().as_encoded_bytes()) == clean(p.as_bytes())), "a file with its directory as root is that file");
            vsym::check(in_workspace(id), "a file with its directory as root is in a workspace");
            vsym::cover("file");
        }
        None => {
            vsym::check(!p.starts_with('/') || Path::new(p).file_name().is_none(), "any absolute path of a file has a file");
            vsym::cover("none");
        }
    }
}
/// Two threads ask for roots at once.
#[no_mangle]
pub extern "C" fn vs_p_race() {
    let names = ["/a", "/b/../a", "/c"];
    let (a, b) = (names[vsym::pick("one", 3)], names[vsym::pick("other", 3)]);
    let [pa, pb]: [ImmutPath; 2] = [Path::new(a).into(), Path::new(b).into()];
    let t = std::thread::spawn(move || {
        let id = WorkspaceResolver::workspace_id(&pb);
        vsym::check(clean(id.path().as_os_str().as_encoded_bytes()) == clean(b.as_bytes()), "the id of a root names the root");
        id
    });
    let mine = WorkspaceResolver::workspace_id(&pa);
    vsym::check(clean(mine.path().as_os_str().as_encoded_bytes()) == clean(a.as_bytes()), "the id of a root names the root");
    let other = t.join().unwrap();
    vsym::check((mine == other) == (clean(a.as_bytes()) == clean(b.as_bytes())), "two roots have one id just if they are one directory");
    vsym::cover("done");
}
