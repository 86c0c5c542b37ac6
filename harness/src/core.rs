use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    /// a piece of text: plain, special characters, literals of the code under test
    pub fn text(&mut self) -> String {
        let d = dict();
        match self.below(12) {
            0..=4 => (*self.pick(&["a", "", "b c", "é😊", "x\ny", " ", "\r", "a\r", "\t", "\"", "\\", "a  ", "  b"])).to_string(),
            5 | 6 => d.strs[self.below(d.strs.len())].clone(),
            7 => (0..1 + self.below(4)).map(|_| *self.pick(&d.chars)).collect(),
            8 => {
                let n = match self.below(3) {
                    0 => self.below(300),
                    _ => (*self.pick(&d.ints) + self.below(3) as i64 - 1).clamp(0, 400) as usize,
                };
                let c = *self.pick(&['a', ' ', 'é', '"']);
                std::iter::repeat(c).take(n).collect()
            }
            9 => {
                let a = self.text();
                a + &self.text()
            }
            _ => (0..1 + self.below(3)).map(|_| char::from_u32(self.below(if self.0 & 1 == 0 { 0x80 } else { 0x110000 }) as u32).unwrap_or('z')).collect(),
        }
    }
    /// a number near one the code under test mentions
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let d = dict();
        (*self.pick(&d.ints) + self.below(3) as i64 - 1).clamp(lo, hi)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    only: Option<u64>,
    pub index: u64,
    distinct: HashSet<u64>,
    fails: u64,
    samples: Vec<String>,
    current: Arc<(AtomicU64, Mutex<String>)>,
    pub bounds: Vec<String>,
    /// the cases that follow belong to this entry of KNOWN_FINDINGS.txt, should they fail
    pub key: Option<&'static str>,
    deadline: Option<std::time::Instant>,
    pub cut: bool,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || ((c as u32) > 0x7f && (c as u32) < 0x10000) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Run {
    pub fn new(prop: &str, seed: u64, thorough: bool, only: Option<u64>) -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        let current = Arc::new((AtomicU64::new(0), Mutex::new(String::new())));
        let c = current.clone();
        std::thread::spawn(move || {
            // a case that does not come back is a failing case
            let mut last = (u64::MAX, 0);
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let n = c.0.load(Ordering::SeqCst);
                if n == last.0 {
                    last.1 += 1;
                    if last.1 >= 60 {
                        let s = c.1.lock().unwrap().clone();
                        println!("{{\"fail\": {}, \"case\": {}, \"expected\": \"the call returns\", \"got\": \"still running after 30 s\"}}", n, esc(&s));
                        std::process::exit(1);
                    }
                } else {
                    last = (n, 0);
                }
            }
        });
        Run { prop: prop.into(), seed, thorough, only, index: 0, distinct: HashSet::new(), fails: 0, samples: vec![], current, bounds: vec![], key: None, deadline: None, cut: false }
    }
    pub fn budget(&mut self, secs: u64) {
        self.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(secs));
    }
    pub fn bound(&mut self, s: &str) {
        self.bounds.push(s.into());
    }
    pub fn many(&self) -> bool {
        self.fails >= 20
    }
    /// Runs one case. `f` gives Ok(()) or Err((expected, got)).
    pub fn case<D: Debug>(&mut self, desc: &D, nontrivial: bool, f: impl FnOnce() -> Result<(), (String, String)>) {
        self.index += 1;
        if let Some(o) = self.only {
            if o != self.index {
                return;
            }
        }
        if self.many() {
            return;
        }
        if self.only.is_none() && self.index % 64 == 0 && self.deadline.is_some_and(|d| std::time::Instant::now() > d) {
            self.cut = true;
        }
        if self.cut {
            self.index -= 1;
            return;
        }
        self.current.0.store(self.index, Ordering::SeqCst);
        let text = format!("{:?}", desc);
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            text.hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 3 && self.distinct.len() % 97 == 1 {
                self.samples.push(text.clone());
            }
        }
        *self.current.1.lock().unwrap() = text.clone();
        let r = catch_unwind(AssertUnwindSafe(f));
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(("no panic".into(), format!("panic: {m}")))
            }
        };
        if let Err((want, got)) = r {
            let key = match self.key {
                Some(k) => format!("\"key\": {}, ", esc(k)),
                None => {
                    self.fails += 1;
                    String::new()
                }
            };
            println!("{{\"fail\": {}, {key}\"case\": {}, \"expected\": {}, \"got\": {}}}", self.index, esc(&text), esc(&want), esc(&got));
        }
    }
    pub fn eq<T: PartialEq + Debug>(want: &T, got: &T) -> Result<(), (String, String)> {
        if want == got {
            Ok(())
        } else {
            Err((format!("{:?}", want), format!("{:?}", got)))
        }
    }
    pub fn finish(mut self) {
        if self.cut {
            self.bounds.push("stopped at the time limit".into());
        }
        let s: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let b: Vec<String> = self.bounds.iter().map(|s| esc(s)).collect();
        println!(
            "{{\"summary\": true, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"fails\": {}, \"bounds\": [{}], \"samples\": [{}]}}",
            self.index,
            self.distinct.len(),
            self.fails,
            b.join(", "),
            s.join(", ")
        );
        std::process::exit(if self.fails > 0 { 1 } else { 0 });
    }
}

/// literals that occur in the code under test (written by bin/check.py)
pub struct Dict {
    pub chars: Vec<char>,
    pub strs: Vec<String>,
    pub ints: Vec<i64>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { chars: vec!['a', '\u{0}', '\u{7f}', '\u{a0}'], strs: vec!["".into(), "a".into()], ints: vec![0, 1, 2, 3, 4, 40, 100] };
        let text = std::env::var("HARNESS_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in text.lines() {
            let mut p = l.split(' ');
            match p.next() {
                Some("c") => d.chars.extend(p.filter_map(|n| n.parse().ok().and_then(char::from_u32))),
                Some("s") => d.strs.push(p.filter_map(|n| n.parse().ok().and_then(char::from_u32)).collect()),
                Some("i") => d.ints.extend(p.filter_map(|n| n.parse::<i64>().ok())),
                _ => (),
            }
        }
        d
    })
}
