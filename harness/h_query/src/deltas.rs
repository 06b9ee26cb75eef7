//! Semantic tokens asked for again: results by id, and edits of them.
use std::collections::HashMap;
use std::path::PathBuf;

use crate::tokens::*;
use lsp_types::{SemanticToken, SemanticTokensFullDeltaResult, SemanticTokensResult};
use tinymist_query::analysis::{Analysis, AnalysisRevLock, LspWorld};
use tinymist_query::{CompilerQueryRequest, PositionEncoding, SemanticRequest, SemanticTokensDeltaRequest, SemanticTokensFullRequest};
use typst::syntax::{Source, SyntaxKind as K, SyntaxNode};

/// The numbers of a result, as the protocol sends them.
fn flat(tokens: &[SemanticToken]) -> Vec<u32> {
    tokens.iter().flat_map(|t| [t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset]).collect()
}
/// What a client has after a result, if it follows from what it had.
fn after(had: Option<&Vec<u32>>, result: SemanticTokensFullDeltaResult) -> (Option<Vec<u32>>, Option<String>) {
    match result {
        SemanticTokensFullDeltaResult::Tokens(t) => (Some(flat(&t.data)), t.result_id),
        SemanticTokensFullDeltaResult::TokensDelta(d) => {
            let Some(had) = had else { return (None, d.result_id) };
            let mut now = had.clone();
            let mut edits = d.edits;
            edits.sort_by_key(|e| std::cmp::Reverse(e.start));
            for e in edits {
                let (start, end) = (e.start as usize, e.start as usize + e.delete_count as usize);
                if end > now.len() {
                    return (None, d.result_id);
                }
                now.splice(start..end, flat(&e.data.unwrap_or_default()));
            }
            (Some(now), d.result_id)
        }
        _ => (None, None),
    }
}
fn analysis() -> Analysis {
    Analysis { position_encoding: PositionEncoding::Utf16, ..Default::default() }
}

#[derive(Clone)]
enum Request {
    Full(SemanticTokensFullRequest),
    Delta(SemanticTokensDeltaRequest),
}
/// A request that is on its way: locked, not yet answered.
struct Pending {
    request: Request,
    file: usize,
    lock: AnalysisRevLock,
    world: LspWorld,
    /// What the client had when it asked.
    had: Option<Vec<u32>>,
}
fn path_of(file: usize) -> PathBuf {
    PathBuf::from(["/w/main.typ", "/w/other.typ"][file])
}
fn send(a: &Analysis, file: usize, previous: Option<String>, had: Option<Vec<u32>>, revision: usize, source: Source) -> Pending {
    let path = path_of(file);
    let request = match previous {
        None => Request::Full(SemanticTokensFullRequest { path }),
        Some(previous_result_id) => Request::Delta(SemanticTokensDeltaRequest { path, previous_result_id }),
    };
    let query = match &request {
        Request::Full(r) => CompilerQueryRequest::SemanticTokensFull(r.clone()),
        Request::Delta(r) => CompilerQueryRequest::SemanticTokensDelta(r.clone()),
    };
    let mut world = world(revision, source, HashMap::new());
    world.path = path_of(file);
    Pending { request, file, lock: a.lock_revision(Some(&query)), world, had }
}
fn run(a: &Analysis, p: Pending) -> (Option<Vec<u32>>, Option<String>) {
    let mut ctx = a.enter_locked(p.world, p.lock);
    let result = match p.request {
        Request::Full(r) => r.request(&mut ctx).map(|r| match r {
            SemanticTokensResult::Tokens(t) => SemanticTokensFullDeltaResult::Tokens(t),
            SemanticTokensResult::Partial(_) => panic!("partial"),
        }),
        Request::Delta(r) => r.request(&mut ctx),
    };
    let Some(result) = result else { return (None, None) };
    after(p.had.as_ref(), result)
}
/// The tokens of a document as they are without any history.
fn fresh(source: &Source) -> Vec<u32> {
    let a = analysis();
    run(&a, send(&a, 0, None, None, 1, source.clone())).0.unwrap()
}
fn doc(leaves: &[(K, &str)]) -> Source {
    document(SyntaxNode::inner(K::Markup, leaves.iter().map(|(k, t)| leaf(*k, t)).collect()))
}

/// Any two short documents: the edit leads from the tokens of the one to those
/// of the other.
fn edits(n: usize) {
    let some = |name| {
        let n = vsym::pick(name, n + 1);
        let all: Vec<_> = (0..n).map(|_| [(K::Text, "a"), (K::Int, "1"), (K::Space, "\n")][vsym::pick("leaf", 3)]).collect();
        doc(&all)
    };
    let (old, new) = (some("old"), some("new"));
    let a = analysis();
    let (had, id) = run(&a, send(&a, 0, None, None, 1, old.clone()));
    vsym::check(had == Some(fresh(&old)) && id.is_some(), "the tokens come with an id");
    let (now, next) = run(&a, send(&a, 0, id.clone(), had, 2, new.clone()));
    vsym::check(now == Some(fresh(&new)), "an edit leads from what the client has to the tokens of the document");
    vsym::check(next.is_some() && next != id, "every result has its own id");
    vsym::cover("edit");
}
#[no_mangle]
pub extern "C" fn vs_q_edits() {
    edits(3)
}
#[no_mangle]
pub extern "C" fn vs_q_edits_more() {
    edits(4)
}

/// A client of one or two files, with requests under way, answers it throws
/// away, and caches that are cleared.
fn histories(steps: usize, files: usize) {
    let docs = [doc(&[(K::Text, "a")]), doc(&[(K::Int, "1"), (K::Space, "\n"), (K::Text, "b")])];
    let want: Vec<_> = docs.iter().map(fresh).collect();
    let a = analysis();
    let lazy = vsym::bool("lazy");
    let mut pending: Vec<Pending> = vec![];
    // The results of each file the client took.
    let mut client: Vec<Vec<(String, Vec<u32>)>> = vec![vec![]; files];
    let mut ids: Vec<String> = vec![];
    let mut revision = 1;
    for _ in 0..steps {
        // What may happen next: a clearing, an answer, a cancellation, a request.
        let kinds = [3, 4][usize::from(pending.len() < 2)] - if pending.is_empty() { 2 } else { 0 };
        let mut step = vsym::pick("step", kinds);
        if step > 0 && pending.is_empty() {
            step += 2;
        }
        match step {
            0 => {
                a.clear_cache();
                vsym::cover("cleared");
            }
            // Answer.
            1 => {
                let p = pending.remove(vsym::pick("which", pending.len()));
                let file = p.file;
                let what = if p.had.is_none() { "whole" } else { "edited" };
                let which = p.world.revision % 2;
                let (now, id) = run(&a, p);
                vsym::check(now.as_ref() == Some(&want[which]), "the client has the tokens of the document after any answer");
                let id = id.unwrap();
                vsym::check(!ids.contains(&id), "no id is given twice");
                ids.push(id.clone());
                if vsym::bool("taken") {
                    client[file].push((id, now.unwrap()));
                }
                vsym::cover(what);
            }
            // The request is cancelled before it is answered.
            2 => {
                drop(pending.remove(vsym::pick("which", pending.len())));
                vsym::cover("cancelled");
            }
            // Ask about the changed document, from a previous result or not.
            _ => {
                let file = vsym::pick("file", files);
                let has = &client[file];
                let back = vsym::pick("back", has.len().min(2) + 1);
                let (previous, had) = match back {
                    0 => (None, None),
                    n => {
                        let h = &has[has.len() - n];
                        (Some(h.0.clone()), Some(h.1.clone()))
                    }
                };
                revision += 1;
                pending.push(send(&a, file, previous, had, revision, docs[revision % 2].clone()));
                vsym::cover("asked");
            }
        }
        while !lazy && rayon::run_one() {}
    }
    drop(pending);
    while rayon::run_one() {}
}
#[no_mangle]
pub extern "C" fn vs_q_histories() {
    histories(6, 1)
}
#[no_mangle]
pub extern "C" fn vs_q_histories_files() {
    histories(5, 2)
}
#[no_mangle]
pub extern "C" fn vs_q_histories_more() {
    histories(8, 1)
}

/// A previous id that is none of ours: the client is given everything, and all
/// goes on as before.
#[no_mangle]
pub extern "C" fn vs_q_foreign() {
    let (old, new) = (doc(&[(K::Text, "a")]), doc(&[(K::Int, "1"), (K::Space, "\n")]));
    let a = analysis();
    let taken = if vsym::bool("before") { run(&a, send(&a, 0, None, None, 1, old.clone())).1 } else { None };
    let foreign = vsym::ascii("id", vsym::pick("len", 3));
    // The numbers of our results, however they are written, are not foreign.
    let means = |id: &Option<String>| id.as_ref().map(|id| foreign.parse() == id.parse::<usize>()) == Some(true);
    vsym::assume(!means(&taken));
    let (now, id) = run(&a, send(&a, 0, Some(foreign.clone()), None, 2, new.clone()));
    vsym::check(now == Some(fresh(&new)), "a client that names no result of ours is given all the tokens");
    let ours = means(&id);
    let (later, id) = run(&a, send(&a, 0, id, now, 3, old.clone()));
    vsym::check(later == Some(fresh(&old)), "what follows a foreign id is right");
    vsym::assume(!ours && !means(&id));
    let (again, _) = run(&a, send(&a, 0, Some(foreign), None, 4, new.clone()));
    vsym::check(again == Some(fresh(&new)), "a client that names no result of ours is given all the tokens");
    vsym::cover("foreign");
}
