//! Looking messages up and filling their placeholders in.
use crate::table::{pool, text};
use tinymist_l10n::*;
use vsym::*;

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn show(a: &Arg) -> String {
    match a {
        Arg::Str(s) => s.to_string(),
        Arg::Int(i) => i.to_string(),
        Arg::Float(f) => f.to_string(),
    }
}
/// What the message should become: a known placeholder is replaced, anything else is kept.
fn filled(m: &str, args: &[(&'static str, Arg)]) -> String {
    let mut out = String::new();
    let mut rest = m;
    while let Some(i) = rest.find('{') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let Some(j) = rest.find('}') else { break };
        match args.iter().find(|(k, _)| *k == &rest[1..j]) {
            Some((_, a)) => out.push_str(&show(a)),
            None => out.push_str(&rest[..j + 1]),
        }
        rest = &rest[j + 1..];
    }
    out.push_str(rest);
    out
}
fn template(m: String) {
    let m = leak(m);
    let args = [("a", Arg::from("{b}")), ("b", Arg::Int(7))];
    let r = t_with_args("k", m, &args);
    check(r == filled(m, &args), "placeholders are replaced and nothing else is");
    if r != m {
        cover("replaced");
    } else {
        cover("kept");
    }
}
#[no_mangle]
pub extern "C" fn vs_l_text() {
    match pick("where", 3) {
        0 => template(text("m", 5)),
        1 => template(format!("{{a{}", text("m", 4))),
        _ => template(format!("{{a}}{}b}}", text("m", 4))),
    }
}
#[no_mangle]
pub extern "C" fn vs_l_text_more() {
    template(text("m", 8))
}
/// The values of the arguments.
#[no_mangle]
pub extern "C" fn vs_l_args() {
    let a = match pick("kind", 4) {
        0 => Arg::Int([i64::MIN, i64::MAX, 0, -1][pick("n64", 4)]),
        1 => Arg::Int(u8("n") as i8 as i64),
        2 => Arg::Str(text("s", 2).into()),
        _ => Arg::Float(1.5),
    };
    let want = match &a {
        Arg::Int(n) => {
            let n = *n;
            let r = t_with_args("k", "{x}", &[("x", Arg::Int(n))]);
            check(r.parse::<i64>() == Ok(n), "a number is shown as it is");
            r.to_string()
        }
        Arg::Str(s) => s.to_string(),
        Arg::Float(_) => "1.5".to_string(),
    };
    let r = t_with_args("k", "<{x}>{x}", &[("x", a)]);
    check(r == format!("<{want}>{want}"), "every occurrence is replaced");
    cover("shown");
}

fn set() -> bool {
    pool();
    let m = load_translations("[k1]\nen = \"e1\"\nzh = \"z1{a}\"\npt-br = \"p\"\n[k2]\nen = \"e2\"\n").unwrap();
    set_translations(m);
    true
}
/// A message is looked up in the language that was set, and falls back to the text in the program.
#[no_mangle]
pub extern "C" fn vs_l_lookup() {
    let k = leak(format!("k{}", text("key", 1)));
    check(set_locale("en").is_none(), "no locale without translations");
    check(t_without_args(k, "m") == "m", "an unknown message falls back");
    set();
    let l = pick("locale", 3);
    check(set_locale(["en", "zh", "pt-br"][l]).is_some(), "a known locale is taken");
    let want = match (l, k) {
        (0, "k1") => "e1",
        (0, "k2") => "e2",
        (1, "k1") => "z1{a}",
        (2, "k1") => "p",
        _ => "m",
    };
    check(t_without_args(k, "m") == want, "a message is translated into the locale");
    let w = if l == 1 && k == "k1" { "z15" } else { want };
    check(t_with_args(k, "m", &[("a", Arg::Int(5))]) == w, "a message is translated before it is filled in");
    cover("looked up");
}
/// The locale is matched without regard to case, or by its language alone; an unknown one changes nothing.
#[no_mangle]
pub extern "C" fn vs_l_locale() {
    set();
    set_locale("en");
    let n = each(pick("len", 7));
    let s = match pick("form", 3) {
        0 => ascii("locale", n),
        1 => format!("zh{}", ascii("locale", n.min(3))),
        _ => format!("pt-{}", ascii("locale", n.min(3))),
    };
    let low = s.to_ascii_lowercase();
    let mut want = None;
    for (l, m) in [("en", "e1"), ("zh", "z1{a}"), ("pt-br", "p")] {
        if low == l || (low.starts_with(l) && low.as_bytes().get(l.len()) == Some(&b'-')) {
            want = Some(m);
        }
    }
    let r = set_locale(&s);
    check(r.is_some() == want.is_some(), "exactly a known locale is taken");
    check(t_without_args("k1", "m") == want.unwrap_or("e1"), "the messages are those of the locale");
    cover(if want.is_some() { "known" } else { "unknown" });
}

fn fails(n: usize, a: &str) -> tinymist_std::Result<u8> {
    match n {
        0 => tinymist_l10n::bail!("k1", "m"),
        1 => tinymist_l10n::bail!("k1", "m {a}", a = a.into()),
        2 => tinymist_l10n::bail!("k9", "m {a}", a = a.into()),
        _ => Ok(1),
    }
}
/// An error has the translated message.
#[no_mangle]
pub extern "C" fn vs_l_bail() {
    set();
    let zh = bool("zh");
    set_locale(if zh { "zh" } else { "en" });
    let a = text("arg", 1);
    let n = pick("how", 4);
    let want = match n {
        0 if zh => "z1{a}".to_string(),
        1 if zh => format!("z1{a}"),
        0 | 1 => "e1".to_string(),
        _ => format!("m {a}"),
    };
    match fails(n, &a) {
        Ok(v) => check(n == 3 && v == 1, "only what fails is an error"),
        Err(e) => {
            check(n != 3, "only what fails is an error");
            check(e.to_string().contains(&want), "an error has the translated message");
            cover("failed");
        }
    }
}
