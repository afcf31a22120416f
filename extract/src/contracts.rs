//! Parser of the contract files (`*.vx`).
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub spec: Option<String>,
    pub twin: Option<String>,
    /// callees a twin calls through their own twins
    pub twincalls: Vec<String>,
    pub entry: String,
    pub exit: String,
    /// (kind, index) -> text; kinds: loop, loopbody, loopend, beforeloop, afterloop, closure
    pub indexed: BTreeMap<(String, usize), String>,
    /// (before/after, pattern, occurrence, text)
    pub anchors: Vec<(String, String, usize, String)>,
    pub deref: Vec<String>,
    /// fields that hold what must not be dropped recursively; asks for explicit drops
    pub drops: Vec<String>,
    pub props: Vec<String>,
    pub trusted: bool,
    pub nocanary: bool,
    pub used: bool,
    /// macros: the signature of the function that stands for every arity
    pub decl: String,
    /// macros: instantiated for 0..=n arguments
    pub arity: Option<(usize, String)>,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub items: String,
    pub fns: BTreeMap<String, FnContract>,
    pub impls: BTreeMap<String, String>,
    pub skip: BTreeMap<String, String>,
    pub structs: BTreeMap<String, String>,
}

pub fn parse(text: &str, out: &mut Contracts) {
    #[derive(Clone)]
    enum Sec {
        None,
        Items,
        Fn(String),
        Impl(String),
        Struct(String),
        Skip,
    }
    let mut sec = Sec::None;
    let mut sub: Option<String> = None;
    let mut buf = String::new();
    fn flush(sec: &Sec, sub: &Option<String>, buf: &mut String, out: &mut Contracts) {
        let b = std::mem::take(buf);
        match sec {
            Sec::None => {}
            Sec::Items => out.items.push_str(&b),
            Sec::Impl(k) => out.impls.entry(k.clone()).or_default().push_str(&b),
            Sec::Struct(k) => out.structs.entry(k.clone()).or_default().push_str(&b),
            Sec::Skip => {
                for l in b.lines() {
                    let l = l.trim();
                    if l.is_empty() || l.starts_with("//") {
                        continue;
                    }
                    let (k, r) = l.split_once(' ').unwrap_or((l, ""));
                    out.skip.insert(k.to_string(), r.to_string());
                }
            }
            Sec::Fn(k) => {
                let c = out.fns.entry(k.clone()).or_default();
                let Some(s) = sub else { return };
                let (h, arg) = s.split_once(' ').unwrap_or((s.as_str(), ""));
                let arg = arg.trim();
                match h {
                    "decl" => c.decl = arg.to_string(),
                    "arity" => c.arity = Some((arg.parse().unwrap(), b)),
                    "sig" => c.ret = Some(arg.to_string()),
                    "attr" => c.attrs.push(arg.to_string()),
                    "props" => c.props = arg.split_whitespace().map(|x| x.to_string()).collect(),
                    "drops" => c.drops = arg.split_whitespace().map(|x| x.to_string()).collect(),
                    "trusted" => c.trusted = true,
                    "nocanary" => c.nocanary = true,
                    "spec" => c.spec = Some(b),
                    "twin" => c.twin = Some(b),
                    "twincalls" => c.twincalls = b.split_whitespace().map(|x| x.to_string()).collect(),
                    "entry" => c.entry.push_str(&b),
                    "exit" => c.exit.push_str(&b),
                    "deref" => c.deref.push(norm(arg)),
                    "before" | "after" => {
                        let (pat, n) = match arg.rsplit_once(" #") {
                            Some((p, n)) => (p, n.parse().unwrap()),
                            None => (arg, 0),
                        };
                        c.anchors.push((h.to_string(), norm(pat), n, b));
                    }
                    "loop" | "loopbody" | "loopend" | "beforeloop" | "afterloop" | "closure" | "closureproof" => {
                        c.indexed.insert((h.to_string(), arg.parse().unwrap()), b);
                    }
                    _ => panic!("unknown subsection {s} in {k}"),
                }
            }
        }
    }
    for line in text.lines() {
        if let Some(h) = line.strip_prefix("== ") {
            flush(&sec, &sub, &mut buf, out);
            sub = None;
            let (k, arg) = h.split_once(' ').unwrap_or((h, ""));
            let arg = arg.trim().to_string();
            sec = match k {
                "items" => Sec::Items,
                "fn" => {
                    out.fns.entry(arg.clone()).or_default();
                    Sec::Fn(arg)
                }
                "impl" => Sec::Impl(arg),
                "struct" => Sec::Struct(arg),
                "skip" => Sec::Skip,
                _ => panic!("unknown section {h}"),
            };
        } else if let (Some(h), Sec::Fn(_)) = (line.strip_prefix("-- "), &sec) {
            flush(&sec, &sub, &mut buf, out);
            sub = Some(h.to_string());
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&sec, &sub, &mut buf, out);
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
