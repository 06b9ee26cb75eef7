//! What the analyses of one revision of the files share, and nothing else.
use std::collections::HashMap;

use crate::tokens::*;
use tinymist_query::analysis::{Analysis, AnalysisRevLock, LocalContextGuard, LspWorld};
use typst::syntax::{FileId, Source, SyntaxKind as K, VirtualPath};

/// Queries of several revisions, in any order of beginning and ending: each gets
/// what is computed for its own revision, and what one of its revision has
/// computed already is not computed again.
fn queries(steps: usize, files: usize) {
    let a = Analysis::default();
    let lazy = vsym::bool("lazy");
    let sources: Vec<Source> = ["/a", "/b"].map(|p| Source::with_root(FileId::new(None, VirtualPath::new(p)), inner(K::Markup, vec![leaf(K::Text, "a")]))).into();
    let mut locked: Vec<(AnalysisRevLock, LspWorld)> = vec![];
    let mut open: Vec<(LocalContextGuard, usize)> = vec![];
    // How often all was cleared, and which file was asked about since, in which revision.
    let mut epoch = 0;
    let mut asked: Vec<(usize, usize)> = vec![];
    let mut revision = 1;
    for _ in 0..steps {
        let mut can = vec![];
        if epoch == 0 {
            can.push('c');
        }
        if locked.len() + open.len() < 3 {
            can.push('l');
        }
        if !locked.is_empty() {
            can.push('e');
        }
        if !open.is_empty() {
            can.push('q');
            can.push('d');
        }
        match can[vsym::pick("step", can.len())] {
            // A snapshot is taken, of these files or of changed ones.
            'l' => {
                revision += usize::from(vsym::bool("changed"));
                locked.push((a.lock_revision(None), world(revision, sources[0].clone(), HashMap::new())));
            }
            // Its query begins.
            'e' => {
                let (lock, world) = locked.remove(vsym::pick("which", locked.len()));
                open.push((a.enter_locked(world, lock), epoch));
            }
            // A query asks about a file.
            'q' => {
                let i = vsym::pick("which", open.len());
                let index = vsym::pick("source", files);
                let source = &sources[index];
                let (ctx, since) = &mut open[i];
                let own = ctx.world.revision;
                let info = ctx.expr_info(source);
                vsym::check(info.revision == own && info.fid == source.id(), "a query is given what is so in its own revision");
                let done = std::mem::take(&mut *ctx.world.computed.lock());
                vsym::check(done.len() <= 1 && done.iter().all(|d| d.1.is_none() || d.1.is_some_and(|p| p.0 == source.id())), "what is offered for reuse is of the same file");
                if *since == epoch {
                    let of = |r: usize| asked.iter().any(|x| x.0 == index && x.1 == r);
                    vsym::check(!of(own) || done.is_empty(), "a revision works out a file only once");
                    let any = asked.iter().any(|x| x.0 == index);
                    vsym::check(!any || done.iter().all(|d| d.1.is_some()), "what was worked out before is offered for reuse");
                    asked.push((index, own));
                    vsym::cover(if done.is_empty() { "shared" } else if any { "reused" } else { "first" });
                }
                vsym::cover("asked");
            }
            // A query ends.
            'd' => {
                drop(open.remove(vsym::pick("which", open.len())));
                vsym::cover("ended");
            }
            _ => {
                a.clear_cache();
                epoch += 1;
                asked.clear();
            }
        }
        while !lazy && rayon::run_one() {}
    }
    drop(open);
    drop(locked);
    while rayon::run_one() {}
}
#[no_mangle]
pub extern "C" fn vs_q_revisions() {
    queries(6, 2)
}
#[no_mangle]
pub extern "C" fn vs_q_revisions_more() {
    queries(9, 1)
}
#[no_mangle]
pub extern "C" fn vs_q_revisions_one() {
    queries(7, 1)
}
