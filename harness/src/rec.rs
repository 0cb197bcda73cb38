//! What a worker counts.

use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Rec {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub nontrivial_runs: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// Failures that belong to other properties, by kind.
    pub foreign: BTreeMap<String, u64>,
    /// Trace the next case.
    pub want_trace: bool,
    pub trace: Vec<String>,
    /// Violations are being shrunk: count nothing.
    pub frozen: bool,
    pub ops: u64,
    pub calls: u64,
}

impl Rec {
    pub fn class(&mut self, name: &str) {
        self.class_n(name, 1)
    }
    pub fn class_n(&mut self, name: &str, n: u64) {
        if !self.frozen && n > 0 {
            *self.classes.entry(name.to_string()).or_default() += n;
        }
    }
    pub fn eval(&mut self, n: u64) {
        if !self.frozen {
            self.evaluations += n;
        }
    }
    pub fn nontrivial(&mut self, key: u64) {
        if !self.frozen {
            self.nontrivial.insert(key);
            self.nontrivial_runs += 1;
        }
    }
    pub fn foreign(&mut self, name: String) {
        if !self.frozen {
            *self.foreign.entry(name).or_default() += 1;
        }
    }
    pub fn sample(&mut self) {
        if !self.frozen && self.want_trace && !self.trace.is_empty() {
            let mut t = self.trace.join("\n");
            if t.len() > 4000 {
                let mut k = 4000;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t += "\n...";
            }
            self.samples.push(t);
        }
        self.trace.clear();
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {n}", esc(k))).collect();
    format!("{{{}}}", v.join(", "))
}

impl Rec {
    pub fn json(&self, extra: &str) -> String {
        let s: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        format!(
            "{{\"evaluations\": {}, \"nontrivial_runs\": {}, \"ops\": {}, \"calls\": {}, \"classes\": {}, \"foreign\": {}, \"samples\": [{}]{extra}}}\n",
            self.evaluations, self.nontrivial_runs, self.ops, self.calls, map(&self.classes), map(&self.foreign), s.join(", ")
        )
    }
}
