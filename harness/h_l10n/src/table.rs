//! Translation files: reading, updating, writing.
use std::collections::BTreeMap;
use tinymist_l10n::*;
use vsym::*;

/// Rayon runs its jobs on the calling thread.
pub fn pool() {
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global();
}
type Table = BTreeMap<String, BTreeMap<String, String>>;
fn table(m: TranslationMapSet) -> Table {
    m.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect()
}
/// Text of n bytes that is valid UTF-8.
pub fn text(name: &str, n: usize) -> String {
    match String::from_utf8(vec(name, n)) {
        Ok(s) => s,
        Err(_) => end(),
    }
}

/// Any text is a translation file or an error.
#[no_mangle]
pub extern "C" fn vs_l_any() {
    pool();
    let s = match pick("where", 4) {
        0 => text("t", 5),
        1 => format!("[k]\n{}", text("t", 5)),
        2 => format!("{}\nen = x", text("t", 4)),
        _ => format!("[k]\nen{}x", text("t", 4)),
    };
    let first = bool("key first");
    match deserialize(&s, first) {
        Ok(_) => cover("file"),
        Err(_) => cover("error"),
    }
}
#[no_mangle]
pub extern "C" fn vs_l_any_load() {
    pool();
    let s = match pick("where", 3) {
        0 => text("t", 4),
        1 => format!("[k]\nen = {}", text("t", 4)),
        _ => format!("[k]\nen = \"{}\"", text("t", 3)),
    };
    match load_translations(&s) {
        Ok(_) => cover("file"),
        Err(_) => cover("error"),
    }
}

/// One visible character of the kind that may begin or end a text.
fn letter(name: &str) -> String {
    let c = u8(name);
    assume(c > b' ' && c < 0x7f);
    String::from_utf8(vec![c]).unwrap()
}
/// Text of up to two characters that has no line break and no space around.
fn word(name: &str) -> String {
    match pick("form", 4) {
        0 => letter(name),
        1 => letter(name) + &letter("w2"),
        2 => letter(name) + " " + &letter("w3"),
        _ => "\u{e9}".to_string() + &letter(name),
    }
}
fn lang(name: &str) -> String {
    let c = u8(name);
    assume(c >= b'a' && c <= b'z');
    String::from_utf8(vec![b'x', c]).unwrap()
}

/// A file of two sections says what it says, whatever the layout.
#[no_mangle]
pub extern "C" fn vs_l_file() {
    pool();
    let first = bool("key first");
    let (k1, k2) = ([word("k1"), "k".to_string()][pick("sym", 2)].clone(), "k2".to_string());
    let l2 = lang("l2");
    let v1 = word("v1");
    let end_of_line = ["\n", "\r\n"][pick("eol", 2)];
    let sp = ["", " ", "\t "][pick("space", 3)];
    let noise = ["", "# [no] = 3", "  ", "  # x"][pick("noise", 4)];
    let lines = [
        noise.to_string(),
        format!("{sp}[{k1}]{sp}"),
        format!("{sp}en{sp}={sp}{v1}{sp}"),
        noise.to_string(),
        format!("{l2} = \"b\""),
        format!("[{k2}]"),
        format!("{l2}={v1}"),
        noise.to_string(),
    ];
    let s = lines.join(end_of_line);
    let mut want = Table::new();
    for (k, l, v) in [(&k1, "en", v1.as_str()), (&k1, &l2, "\"b\""), (&k2, &l2, &v1)] {
        let (a, b) = if first { (k.as_str(), l) } else { (l, k.as_str()) };
        want.entry(a.to_string()).or_default().insert(b.to_string(), v.to_string());
    }
    match deserialize(&s, first) {
        Ok(m) => check(table(m) == want, "a translation file is read as written"),
        Err(_) => check(false, "a translation file is read"),
    }
    cover("read");
}

/// A quoted message is unescaped, another one is taken as it is.
#[no_mangle]
pub extern "C" fn vs_l_value() {
    pool();
    let quoted = bool("quoted");
    let msg = if quoted { text("msg", 1 + pick("len", 3)) } else { word("v") };
    assume(quoted || !msg.starts_with('"'));
    let v = if quoted { serde_json::to_string(&msg).unwrap() } else { msg.clone() };
    match load_translations(&format!("\n[k]\nen = {v}\n")) {
        Ok(m) => {
            check(m.len() == 1 && m["en"].len() == 1, "exactly what is in the file is loaded");
            check(m["en"]["k"] == msg, "a message is loaded as it was written");
        }
        Err(_) => check(false, "a translation file is read"),
    }
    cover("loaded");
}

/// Updating keeps the translations of used messages, drops the others, and what is written is read back.
#[no_mangle]
pub extern "C" fn vs_l_update() {
    pool();
    let l = lang("l");
    let v = word("v");
    let (ka, kb) = (word("ka"), "q".to_string());
    let mut old = Table::new();
    if bool("old a") {
        old.entry(ka.clone()).or_default().insert("en".into(), "\"0\"".into());
        if bool("a has l") {
            old.entry(ka.clone()).or_default().insert(l.clone(), v.clone());
        }
    }
    old.entry(kb.clone()).or_default().insert(l.clone(), v.clone());
    let set = old.iter().map(|(k, d)| (k.clone(), d.iter().map(|(a, b)| (a.clone(), b.clone())).collect())).collect::<TranslationMapSet>();
    let mut used = vec![];
    let en = format!("\"{}\"", letter("en"));
    let (ua, ub) = (bool("a used"), bool("b used"));
    if ua {
        used.push((ka.clone(), en.clone()));
    }
    if ub {
        used.push((kb.clone(), "\"b\"".to_string()));
    }
    let mut want = Table::new();
    for (k, e) in &used {
        let mut d = old.get(k).cloned().unwrap_or_default();
        d.insert("en".into(), e.clone());
        want.insert(k.clone(), d);
    }
    let mut set = set;
    let mut other = set.clone();
    update_translations(used.iter().rev().cloned().collect(), &mut other);
    update_translations(used, &mut set);
    let other = serialize_translations(other);
    check(table(set.clone()) == want, "an update keeps exactly the used messages and their translations");
    let s = serialize_translations(set);
    check(s == other || ka == kb, "what is written does not depend on the order of the messages");
    let keys: Vec<_> = s.lines().filter_map(|l| l.strip_prefix('[')?.strip_suffix(']')).collect();
    check(keys.len() == want.len() && keys.is_sorted(), "every message is written once, in order");
    match deserialize(&s, true) {
        Ok(m) => check(table(m) == want, "a written translation file is read back"),
        Err(_) => check(false, "a written translation file is read back"),
    }
    cover("updated");
}

fn read_faults(call: &str) -> &'static [vfs::Fault] {
    match call {
        "read" | "open" => &[vfs::Fault::Any],
        "write" => &[vfs::Fault::Any, vfs::Fault::Short],
        _ => &[],
    }
}
/// A file of translations is updated where it lies.
#[no_mangle]
pub extern "C" fn vs_l_disk() {
    pool();
    const T: &str = "/t.toml";
    let mut s = vfs::State::new();
    let v = letter("v");
    let old = match pick("old", 6) {
        0 => None,
        1 => Some(String::new()),
        2 => Some(format!("[a]\nen = \"0\"\nzh = {v}\n[b]\nen = \"1\"\n")),
        3 => Some(format!("\n# x\n\n[b]\nzh = {v}")),
        4 => Some("[a\n".to_string()),
        _ => Some("[a]\nen\n".to_string()),
    };
    let malformed = old.as_ref().is_some_and(|o| o.ends_with("[a\n") || o.ends_with("en\n"));
    if let Some(o) = &old {
        s.file(T, o.as_bytes());
    }
    s.faults = read_faults;
    s.budget = 1;
    let mut used: Vec<(String, String)> = vec![];
    for (name, k) in [("b used", "b"), ("a used", "a")] {
        if bool(name) {
            used.push((k.into(), format!("\"{k}\"")));
        }
    }
    let mut want = Table::new();
    for (k, e) in &used {
        let d = want.entry(k.clone()).or_default();
        d.insert("en".into(), e.clone());
        let zh = match &old {
            Some(o) if k == "a" => o.starts_with("[a]"),
            Some(o) => o.contains("# x"),
            None => false,
        };
        if zh && !malformed {
            d.insert("zh".into(), v.clone());
        }
    }
    vfs::start(s);
    let r = update_disk_translations(used, std::path::Path::new(T));
    let s = vfs::stop();
    let now = s.content(T);
    if r.is_ok() {
        check(!malformed, "a text that is no translation file is an error");
        let m = deserialize(std::str::from_utf8(now.unwrap()).unwrap(), true).unwrap();
        check(table(m) == want, "an update keeps exactly the used messages and their translations");
        cover("updated");
    } else {
        check(malformed || !s.hits.is_empty(), "a file of translations is updated");
        if malformed || s.hits.iter().all(|h| h.0 == "read") {
            check(now == old.as_ref().map(|o| o.as_bytes()), "what cannot be read is not written over");
        }
        cover("failed");
    }
}
