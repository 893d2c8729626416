//! What a monitor run observed, and what it found.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Report {
    pub cases: u64,
    pub evals: u64,
    pub cov: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub known: Vec<String>,
    pub digests: Vec<(u64, String)>,
    pub feedback: Option<crate::cov::Summary>,
}
#[derive(Clone)]
pub struct Fail {
    pub case: u64,
    pub what: String,
    pub detail: String,
}
impl Report {
    pub fn merge(&mut self, o: Report) {
        self.cases += o.cases;
        self.evals += o.evals;
        for (k, v) in o.cov {
            *self.cov.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
        self.fails.extend(o.fails);
        self.known.extend(o.known);
        self.digests.extend(o.digests);
        if o.feedback.is_some() {
            self.feedback = o.feedback;
        }
    }
}
pub struct Ctx {
    pub case: u64,
    pub seed: u64,
    pub rng: crate::rng::Rng,
    pub r: Report,
}
impl Ctx {
    pub fn cov(&mut self, k: impl Into<String>) {
        *self.r.cov.entry(k.into()).or_insert(0) += 1;
    }
    /// Records one observed event: operation label plus the operand values (for distinctness).
    pub fn seen(&mut self, op: &str, operands: &[&[u8]]) {
        self.r.evals += 1;
        *self.r.cov.entry(format!("op:{}", op)).or_insert(0) += 1;
        let mut h = DefaultHasher::new();
        op.hash(&mut h);
        for o in operands {
            o.hash(&mut h);
        }
        let nontrivial = operands.iter().any(|o| o.iter().any(|b| *b != 0));
        if nontrivial && self.r.distinct.len() < 4_000_000 {
            self.r.distinct.insert(h.finish());
        }
        if self.r.samples.len() < 3 && nontrivial && self.case % 7 == 3 {
            let s: Vec<String> = operands.iter().map(|o| crate::big::hex(o)).collect();
            self.r.samples.push(format!("{}({})", op, s.join(", ")));
        }
    }
    pub fn fail(&mut self, what: &str, detail: String) {
        if self.r.fails.len() < 20 {
            self.r.fails.push(Fail { case: self.case, what: what.into(), detail });
        }
    }
    pub fn ck(&mut self, ok: bool, what: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(what, d);
        }
        ok
    }
    /// Compares bytes the crate produced with bytes the oracle produced.
    pub fn same(&mut self, what: &str, got: &[u8], want: &[u8], inputs: &[&[u8]]) -> bool {
        if got != want {
            let i: Vec<String> = inputs.iter().map(|o| crate::big::hex(o)).collect();
            self.fail(
                what,
                format!(
                    "inputs=[{}] got={} expected={}",
                    i.join(", "),
                    crate::big::hex(got),
                    crate::big::hex(want)
                ),
            );
            false
        } else {
            true
        }
    }
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Report {
    pub fn to_json(&self, prop: &str, backend: &str, seed: u64, extra: &str) -> String {
        let cov: Vec<String> =
            self.cov.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
        let samples: Vec<String> = self.samples.iter().map(|s| json_str(s)).collect();
        let known: Vec<String> = self.known.iter().map(|s| json_str(s)).collect();
        let fails: Vec<String> = self
            .fails
            .iter()
            .map(|f| {
                format!(
                    "{{\"case\":{},\"what\":{},\"detail\":{}}}",
                    f.case,
                    json_str(&f.what),
                    json_str(&f.detail)
                )
            })
            .collect();
        format!(
            "{{\"property\":{},\"backend\":{},\"seed\":{},\"cases\":{},\"evaluations\":{},\"distinct\":{},\"observed\":{{{}}},\"samples\":[{}],\"known\":[{}],\"fails\":[{}]{}}}",
            json_str(prop), json_str(backend), seed, self.cases, self.evals, self.distinct.len(),
            cov.join(","), samples.join(","), known.join(","), fails.join(","), extra
        )
    }
}
