//! Numbers worth trying, taken from the sources under test: a fuzzing dictionary. It only steers the
//! generators towards values which the code itself singles out; no verdict depends on it.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::OnceLock;

fn literals(text: &str, out: &mut Vec<u64>) {
    let b = text.as_bytes();
    let (mut i, n) = (0, b.len());
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < n {
        match b[i] {
            b'/' if b.get(i + 1) == Some(&b'/') => {
                while i < n && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'"' => {
                i += 1;
                while i < n && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
            }
            b'\'' if i + 2 < n && b[i + 2] == b'\'' => {
                out.push(b[i + 1] as u64);
                i += 3;
            }
            c if word(c) => {
                let at = i;
                while i < n && word(b[i]) {
                    i += 1;
                }
                if c.is_ascii_digit() {
                    let t: String = text[at..i].chars().filter(|c| *c != '_').collect();
                    let (radix, digits) = match t.get(..2) {
                        Some("0x") => (16, &t[2..]),
                        Some("0b") => (2, &t[2..]),
                        Some("0o") => (8, &t[2..]),
                        _ => (10, &t[..]),
                    };
                    let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
                    if let Ok(v) = u64::from_str_radix(&digits[..end], radix) {
                        out.push(v);
                    }
                }
            }
            _ => i += 1,
        }
    }
}
type Counts = BTreeMap<(String, u64), usize>;

fn walk(root: &Path, p: &Path, out: &mut Counts) {
    let Ok(dir) = std::fs::read_dir(p) else { return };
    for e in dir.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(root, &p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                let mut v = Vec::new();
                literals(t.split("#[cfg(test)]\nmod ").next().unwrap_or(""), &mut v);
                let name = p.strip_prefix(root).unwrap_or(&p).display().to_string();
                for x in v.into_iter().filter(|x| *x > 3) {
                    *out.entry((name.clone(), x)).or_default() += 1;
                }
            }
        }
    }
}
fn counts() -> Counts {
    let mut out = Counts::new();
    let root = Path::new("/repo");
    for p in ["midi2/src", "midi2_proc/src"] {
        walk(root, &root.join(p), &mut out);
    }
    out
}
/// the table kept in literals.txt: `file number count` per line
pub fn table() -> String {
    counts().into_iter().map(|((f, v), n)| format!("{f} {v} {n}\n")).collect()
}
pub struct Dict {
    pub all: Vec<u64>,
    /// those which some file mentions more often than it did when literals.txt was written:
    /// the search leans towards what changed
    pub new: Vec<u64>,
}
pub fn dictionary() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut old: BTreeMap<(&str, &str), usize> = BTreeMap::new();
        for l in include_str!("literals.txt").lines() {
            let mut w = l.split(' ');
            if let (Some(f), Some(v), Some(n)) = (w.next(), w.next(), w.next()) {
                old.insert((f, v), n.parse().unwrap_or(0));
            }
        }
        let (mut all, mut new) = (BTreeSet::new(), BTreeSet::new());
        for ((f, v), n) in counts() {
            all.insert(v);
            if n > old.get(&(f.as_str(), v.to_string().as_str())).copied().unwrap_or(0) {
                new.insert(v);
            }
        }
        Dict { all: all.into_iter().collect(), new: new.into_iter().collect() }
    })
}
