//! Source locations from the debug metadata of the module.
use crate::exec::Engine;
use std::collections::{BTreeMap, BTreeSet};

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let mut i = 0;
    loop {
        let j = s[i..].find(k)? + i;
        let before = s[..j].chars().last();
        if matches!(before, Some('(') | Some(' ')) && s[j + k.len()..].starts_with(": ") {
            let r = &s[j + k.len() + 2..];
            if let Some(q) = r.strip_prefix('"') {
                return q.split('"').next();
            }
            let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
            return Some(&r[..e]);
        }
        i = j + k.len();
    }
}
fn num(s: Option<&str>) -> Option<u32> {
    s?.trim_start_matches('!').parse().ok()
}

pub struct Frame {
    pub func: String,
    pub file: String,
    pub line: u32,
}

impl Engine {
    fn md(&self, id: u32) -> &str {
        match self.m.md.get(&id) {
            Some((a, b)) => std::str::from_utf8(&self.m.text[*a..*b]).unwrap_or(""),
            None => "",
        }
    }
    fn file_of(&self, scope: &str) -> String {
        let f = match num(field(scope, "file")) {
            Some(f) => f,
            None => return String::new(),
        };
        let t = self.md(f);
        let name = field(t, "filename").unwrap_or("");
        if name.starts_with('/') {
            return name.to_string();
        }
        match field(t, "directory") {
            Some(d) if !d.is_empty() => format!("{}/{}", d, name),
            _ => name.to_string(),
        }
    }
    fn subprogram(&self, mut scope: u32) -> (u32, String, String) {
        // file comes from the innermost scope
        let file = self.file_of(self.md(scope));
        for _ in 0..200 {
            let t = self.md(scope);
            if t.contains("DISubprogram(") {
                let mut name = field(t, "name").unwrap_or("?").to_string();
                let mut p = num(field(t, "scope"));
                for _ in 0..6 {
                    let q = match p {
                        Some(q) => q,
                        None => break,
                    };
                    let s = self.md(q);
                    if s.contains("DINamespace") || s.contains("DICompositeType") {
                        if let Some(n) = field(s, "name") {
                            name = format!("{}::{}", n, name);
                        }
                        p = num(field(s, "scope"));
                    } else {
                        break;
                    }
                }
                return (scope, name, file);
            }
            match num(field(t, "scope")) {
                Some(s) => scope = s,
                None => break,
            }
        }
        (0, "?".into(), file)
    }
    /// inlined frames of a location, innermost first
    pub fn frames(&self, mut d: u32) -> Vec<Frame> {
        let mut v = Vec::new();
        for _ in 0..100 {
            let t = self.md(d);
            if !t.contains("DILocation(") {
                break;
            }
            let line = num(field(t, "line")).unwrap_or(0);
            if let Some(s) = num(field(t, "scope")) {
                let (_, f, file) = self.subprogram(s);
                v.push(Frame { func: f, file, line });
            }
            match num(field(t, "inlinedAt")) {
                Some(x) => d = x,
                None => break,
            }
        }
        v
    }
    pub fn full_stack(&self) -> Vec<String> {
        let mut out = Vec::new();
        let mut ds = vec![self.cur_dbg];
        let mut k = self.stack.len();
        while k >= 2 {
            ds.push(self.stack[k - 1]);
            k -= 2;
        }
        for d in ds {
            for f in self.frames(d) {
                out.push(format!("{} ({}:{})", f.func, f.file, f.line));
                if out.len() > 60 {
                    return out;
                }
            }
        }
        out
    }
    pub fn loc(&self) -> String {
        let s = self.full_stack();
        let mut out = Vec::new();
        if let Some(x) = s.first() {
            out.push(x.clone());
        }
        for x in s.iter().skip(1) {
            if !x.contains("/rustc/") && !x.contains("/registry/") {
                out.push(x.clone());
                if out.len() > 3 {
                    break;
                }
            }
        }
        out.join(" <- ")
    }
    /// functions of the given source trees that were executed, with the executed lines
    pub fn encoded(&self, roots: &[String]) -> BTreeMap<String, BTreeSet<u32>> {
        let mut out: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
        let mut memo: std::collections::HashMap<u32, Option<String>> = Default::default();
        let mut todo: Vec<u32> =
            self.dbg_seen.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u32).collect();
        let mut done: std::collections::HashSet<u32> = Default::default();
        while let Some(d) = todo.pop() {
            if !done.insert(d) {
                continue;
            }
            let t = self.md(d);
            if !t.contains("DILocation(") {
                continue;
            }
            if let Some(x) = num(field(t, "inlinedAt")) {
                todo.push(x);
            }
            let line = num(field(t, "line")).unwrap_or(0);
            if let Some(s) = num(field(t, "scope")) {
                let name = memo
                    .entry(s)
                    .or_insert_with(|| {
                        let (_, f, file) = self.subprogram(s);
                        roots.iter().find(|r| file.starts_with(r.as_str())).map(|_| format!("{} [{}]", f, file))
                    })
                    .clone();
                if let Some(n) = name {
                    out.entry(n).or_default().insert(line);
                }
            }
        }
        out
    }
}
