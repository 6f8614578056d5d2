//! A simulated execution as plain data: named integer parameters plus a list of operations
//! (workload, schedule and fault events alike). Everything a run does is a pure function of this,
//! so the text form of a case is the replay file and shrinking works on any property's cases.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub name: String,
    pub args: Vec<i64>,
}

impl Op {
    pub fn new(name: &str, args: &[i64]) -> Op {
        Op { name: name.to_string(), args: args.to_vec() }
    }
    pub fn arg(&self, i: usize) -> i64 {
        self.args.get(i).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub property: String,
    pub params: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn new(property: &str) -> Case {
        Case { property: property.to_string(), ..Default::default() }
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.params.insert(k.to_string(), v);
    }
    pub fn get(&self, k: &str) -> i64 {
        self.params.get(k).copied().unwrap_or(0)
    }
    pub fn op(&mut self, name: &str, args: &[i64]) {
        self.ops.push(Op::new(name, args));
    }
    pub fn to_text(&self) -> String {
        let mut s = String::from("simcheck-replay v1\n");
        s.push_str(&format!("property {}\n", self.property));
        for (k, v) in &self.params {
            s.push_str(&format!("param {k} {v}\n"));
        }
        for op in &self.ops {
            s.push_str(&format!("op {}", op.name));
            for a in &op.args {
                s.push_str(&format!(" {a}"));
            }
            s.push('\n');
        }
        s
    }
    pub fn from_text(t: &str) -> Result<Case, String> {
        let mut lines = t.lines();
        if lines.next() != Some("simcheck-replay v1") {
            return Err("not a simcheck replay file".into());
        }
        let mut c = Case::default();
        for l in lines {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let w: Vec<&str> = l.split_whitespace().collect();
            match w[0] {
                "property" => c.property = w.get(1).ok_or("property")?.to_string(),
                "param" => {
                    let v = w.get(2).ok_or("param")?.parse().map_err(|e| format!("{l}: {e}"))?;
                    c.params.insert(w[1].to_string(), v);
                }
                "op" => {
                    let args: Result<Vec<i64>, _> = w[2..].iter().map(|x| x.parse()).collect();
                    c.ops.push(Op {
                        name: w.get(1).ok_or("op")?.to_string(),
                        args: args.map_err(|e| format!("{l}: {e}"))?,
                    });
                }
                _ => return Err(format!("bad line: {l}")),
            }
        }
        Ok(c)
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable label of what went wrong; shrinking keeps it fixed.
    pub class: String,
    pub detail: String,
}

impl Violation {
    pub fn new(class: &str, detail: String) -> Violation {
        Violation { class: class.to_string(), detail }
    }
}

/// What one run reports back.
#[derive(Default, Clone)]
pub struct Report {
    /// Hash of everything observed: two runs of the same case must agree.
    pub trace: u64,
    /// Hash of the state/interleaving/fault signature, for the distinctness measure.
    pub signature: u64,
    /// Rare-condition probes and faults that actually fired.
    pub counters: BTreeMap<String, u64>,
    /// Simulated audio time in microseconds.
    pub sim_us: u64,
    /// Did the run exercise the property non-trivially?
    pub nontrivial: bool,
    /// Listed findings that this run reproduced.
    pub known: Vec<String>,
    /// Library edges covered, four per element.
    pub edges: Vec<u8>,
}

impl Report {
    pub fn hit(&mut self, k: &str) {
        self.hit_n(k, 1)
    }
    pub fn hit_n(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
}
