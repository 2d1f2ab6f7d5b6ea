//! Shared plumbing: reading model behaviours, reporting, panics as data.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Args(pub BTreeMap<String, String>);
impl Args {
    pub fn parse(it: impl Iterator<Item = String>) -> Self {
        let mut m = BTreeMap::new();
        let v: Vec<String> = it.collect();
        let mut i = 0;
        while i + 1 < v.len() {
            m.insert(v[i].trim_start_matches('-').to_string(), v[i + 1].clone());
            i += 2;
        }
        Args(m)
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn str(&self, k: &str, d: &str) -> String {
        self.get(k).unwrap_or(d).to_string()
    }
    pub fn u64(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

pub fn traces(path: &str) -> impl Iterator<Item = (usize, Value)> {
    let f = std::io::BufReader::new(std::fs::File::open(path).expect("trace file"));
    f.lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .enumerate()
        .map(|(i, l)| (i, serde_json::from_str(&l).expect("trace json")))
}

/// Collects mismatches between the specification and the code, and statistics.
pub struct Report {
    pub prop: String,
    pub stats: BTreeMap<String, u64>,
    pub viols: Vec<Value>,
    pub known: Vec<Value>,
    pub others: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    out: Option<std::fs::File>,
}
impl Report {
    pub fn new(args: &Args) -> Self {
        Report {
            prop: args.str("prop", ""),
            stats: Default::default(),
            viols: vec![],
            known: vec![],
            others: Default::default(),
            samples: vec![],
            out: args.get("out").map(|p| std::fs::File::create(p).unwrap()),
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_default() += n;
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
    /// Returns true if the mismatch belongs to the property under check.
    pub fn mismatch(&mut self, props: &[&str], what: &str, exp: Value, got: Value, wher: Value) -> bool {
        let mine = self.prop.is_empty() || props.iter().any(|p| *p == self.prop);
        if mine {
            if self.viols.len() < 20 {
                self.viols.push(json!({"props": props, "what": what, "expected": exp, "got": got, "where": wher}));
            }
            self.count("violations", 1);
        } else {
            for p in props {
                *self.others.entry(p.to_string()).or_default() += 1;
            }
        }
        mine
    }
    pub fn finish(mut self) {
        let v = json!({"stats": self.stats, "violations": self.viols, "known": self.known,
                       "other_properties": self.others, "samples": self.samples});
        if let Some(f) = self.out.as_mut() {
            writeln!(f, "{}", v).unwrap();
        } else {
            println!("{}", v);
        }
    }
}

pub fn quiet_panics() {
    if std::env::var("CONF_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_msg)
}

pub fn scratch(name: &str) -> std::path::PathBuf {
    let base = std::env::var("CONF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    std::path::Path::new(&base).join(name)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

/// The text of a finding listed in known_findings.json.
pub fn known(id: &str) -> String {
    let p = std::env::var("CONF_KNOWN").unwrap_or_default();
    let v: Value = std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
    v["findings"].as_array().and_then(|a| a.iter().find(|f| f["id"] == id)).and_then(|f| f["what"].as_str()).unwrap_or(id).to_string()
}
