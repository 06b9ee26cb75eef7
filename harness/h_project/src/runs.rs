use crate::sim::*;
use crate::{ProjectInsId, GIVEN};
use tinymist_world::args::TaskWhen;
use vsym::{bool, check, cover, end, pick};

fn started(lint: TaskWhen) -> Sim {
    started_with(lint, Imports::Now)
}
#[derive(PartialEq)]
enum Imports {
    Now,
    Before,
    Never,
}
fn started_with(lint: TaskWhen, imports: Imports) -> Sim {
    let mut s = Sim::new(lint);
    let t = s.text(if imports == Imports::Never { 's' } else { 'i' });
    s.write(A, Some(t));
    let t = s.text('s');
    s.write(B, Some(t));
    let t = s.text('s');
    s.write(C, Some(t));
    let id = s.primary();
    s.change_main(&id, Some(A));
    s.rest();
    s.check_rest();
    if imports == Imports::Before {
        let t = s.text('s');
        s.edit(A, Some(t));
        s.rest();
        s.check_rest();
    }
    s
}
fn finish(mut s: Sim) {
    s.rest();
    s.check_rest();
    s.check_query();
    cover("end");
}
fn must(went: bool) {
    if !went {
        end()
    }
}
/// A thread ends one of the tasks given to it.
fn compile(any: bool) {
    let n = rayon::waiting();
    must(n > 0);
    must(rayon::run_at(if any && n > 1 { pick("task", n.min(2)) } else { 0 }));
}
fn disk(s: &mut Sim, f: usize) {
    let t = match pick("disk", 3) {
        0 => Some(s.text('s')),
        1 => Some(s.text('!')),
        _ => None,
    };
    s.write(f, t);
}
fn edit_b(s: &mut Sim) {
    let close = s.mem[B].is_some() && bool("close");
    let t = (!close).then(|| s.text(if bool("wrong") { '!' } else { 's' }));
    s.edit(B, t);
}
fn edit_a(s: &mut Sim) {
    let t = s.text(if bool("imports") { 'i' } else { 's' });
    s.edit(A, Some(t));
}

/// Edits, writes to the disk, compilations and news in any order.
fn edits(n: usize) {
    let mut s = started_with(TaskWhen::Never, if bool("imports") { Imports::Now } else { Imports::Before });
    for _ in 0..n {
        match pick("step", 6) {
            0 => edit_a(&mut s),
            1 => edit_b(&mut s),
            2 => disk(&mut s, B),
            3 => compile(false),
            4 => must(s.event()),
            _ => must(s.watch()),
        }
    }
    finish(s)
}
#[no_mangle]
pub extern "C" fn vs_pr_edit() {
    edits(4)
}
#[no_mangle]
pub extern "C" fn vs_pr_edit_more() {
    edits(5)
}

/// What is wrong is found, and put right, where it is.
fn faults(n: usize) {
    let mut s = started_with(TaskWhen::Never, if bool("imported") { Imports::Before } else { Imports::Never });
    for _ in 0..n {
        match pick("step", 4) {
            0 => edit_a(&mut s),
            1 => edit_b(&mut s),
            2 => disk(&mut s, B),
            _ => {
                s.rest();
                s.check_rest();
            }
        }
    }
    finish(s)
}
#[no_mangle]
pub extern "C" fn vs_pr_fault() {
    faults(4)
}
#[no_mangle]
pub extern "C" fn vs_pr_fault_more() {
    faults(6)
}

/// A file is opened, edited and closed while the watcher is slow.
fn closes(n: usize) {
    let mut s = started(TaskWhen::Never);
    let t = s.text('s');
    s.edit(B, Some(t));
    s.rest();
    for _ in 0..n {
        match pick("step", 6) {
            0 => {
                let t = s.text('s');
                s.edit(B, Some(t));
            }
            1 => {
                must(s.mem[B].is_some());
                s.edit(B, None);
            }
            2 => s.sync(),
            3 => {
                let t = s.text('s');
                s.write(B, Some(t));
            }
            4 => must(s.event()),
            _ => must(s.watch()),
        }
    }
    finish(s)
}
#[no_mangle]
pub extern "C" fn vs_pr_close() {
    closes(5)
}
#[no_mangle]
pub extern "C" fn vs_pr_close_more() {
    closes(6)
}

/// The main file changes, or is none, while compilations are under way.
fn mains(n: usize) {
    let mut s = started(TaskWhen::Never);
    let id = s.primary();
    for _ in 0..n {
        match pick("step", 6) {
            0 => {
                let main = match pick("main", 3) {
                    0 => Some(A),
                    1 => Some(C),
                    _ => None,
                };
                s.change_main(&id, main);
            }
            1 => {
                let t = s.text(if bool("wrong") { '!' } else { 's' });
                s.edit(A, Some(t));
            }
            2 => {
                let t = s.text(if bool("wrong") { '!' } else { 's' });
                s.edit(C, Some(t));
            }
            3 => compile(true),
            4 => must(s.event()),
            _ => s.check_query_now(),
        }
    }
    finish(s)
}
#[no_mangle]
pub extern "C" fn vs_pr_main() {
    mains(4)
}
#[no_mangle]
pub extern "C" fn vs_pr_main_more() {
    mains(5)
}

/// A second project is started, started again and settled.
fn sides(n: usize) {
    let mut s = started(TaskWhen::Never);
    let id = ProjectInsId("side".into());
    for _ in 0..n {
        match pick("step", 6) {
            0 => {
                s.restart(if bool("main") { C } else { A });
            }
            1 => s.settle_project(&id),
            2 => {
                let f = if bool("which") { C } else { B };
                let t = s.text(if bool("wrong") { '!' } else { 's' });
                s.edit(f, Some(t));
            }
            3 => compile(true),
            4 => must(s.event()),
            _ => s.compile(&id),
        }
    }
    finish(s)
}
#[no_mangle]
pub extern "C" fn vs_pr_side() {
    sides(4)
}
#[no_mangle]
pub extern "C" fn vs_pr_side_more() {
    sides(5)
}

/// The projects start anew while compilations and news are under way.
fn reloads(n: usize) {
    let mut s = started(TaskWhen::Never);
    let t = s.text('i');
    s.edit(A, Some(t));
    for _ in 0..n {
        match pick("step", 6) {
            0 => s.reload(),
            1 => edit_b(&mut s),
            2 => compile(true),
            3 => must(s.event()),
            4 => must(s.watch()),
            _ => {
                s.restart(C);
            }
        }
    }
    finish(s)
}
#[no_mangle]
pub extern "C" fn vs_pr_reload() {
    reloads(4)
}
#[no_mangle]
pub extern "C" fn vs_pr_reload_more() {
    reloads(5)
}

/// Diagnostics come of lints that run beside the compilations.
fn lints(n: usize) {
    let when = if bool("on-type") { TaskWhen::OnType } else { TaskWhen::OnSave };
    let mut s = started(when);
    for _ in 0..n {
        match pick("step", 5) {
            0 => {
                let t = s.text(if bool("wrong") { '!' } else { 's' });
                s.edit(A, Some(t));
            }
            1 => {
                let t = s.text(if bool("wrong") { '!' } else { 's' });
                s.write(B, Some(t));
            }
            2 => compile(true),
            3 => must(s.event()),
            _ => s.tell(),
        }
    }
    finish(s)
}
#[no_mangle]
pub extern "C" fn vs_pr_lint() {
    lints(4)
}
#[no_mangle]
pub extern "C" fn vs_pr_lint_more() {
    lints(5)
}

/// Why a document is given out: the edits, the saves.
fn reasons(n: usize) {
    let mut s = started(TaskWhen::Never);
    let from = GIVEN.lock().unwrap().len();
    let mut want = [false; 2];
    for _ in 0..n {
        match pick("step", 5) {
            0 => {
                let t = s.text('i');
                s.edit(A, Some(t));
                want[0] = true;
            }
            1 => {
                let t = s.text('s');
                s.write(B, Some(t));
                want[1] = true;
            }
            2 => compile(false),
            3 => must(s.event()),
            _ => s.check_query_now(),
        }
    }
    s.rest();
    let given = GIVEN.lock().unwrap();
    for k in 0..2 {
        check(!want[k] || given[from..].iter().any(|g| g.1.signal[k]), "what an edit or a save brings about is given out as such");
    }
    drop(given);
    s.check_rest();
    cover("end");
}
#[no_mangle]
pub extern "C" fn vs_pr_reason() {
    reasons(5)
}

/// Two projects import one file that is wrong.
fn shares(n: usize) {
    let mut s = started(TaskWhen::Never);
    let id = ProjectInsId("side".into());
    for f in [A, C] {
        let t = s.text('i');
        s.edit(f, Some(t));
    }
    let t = s.text('!');
    s.edit(B, Some(t));
    s.restart(C);
    s.rest();
    s.check_rest();
    for _ in 0..n {
        match pick("step", 6) {
            0 => {
                let f = if bool("which") { C } else { A };
                let t = s.text(if bool("imports") { 'i' } else { 's' });
                s.edit(f, Some(t));
            }
            1 => {
                let t = s.text(if bool("wrong") { '!' } else { 's' });
                s.edit(B, Some(t));
            }
            2 => {
                if bool("settle") {
                    s.settle_project(&id);
                } else {
                    s.restart(C);
                }
            }
            3 => compile(true),
            4 => must(s.event()),
            _ => {
                s.rest();
                s.check_rest();
            }
        }
    }
    finish(s)
}
#[no_mangle]
pub extern "C" fn vs_pr_share() {
    shares(3)
}
#[no_mangle]
pub extern "C" fn vs_pr_share_more() {
    shares(4)
}
