//! Replays behaviours of Storage.tla on the real global state.
use crate::common::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::future::Future;
use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState, StorageError, TemplateStorage};
use svm_types::{
    Address, CodeKind, CodeSection, CtorsSection, DataSection, GasMode,
    HeaderSection, Section, SectionKind, Sections, Template, TemplateAddr,
};
use svm_types::Layer;

/// How an abstract key is realised.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Var,      // a 32-byte variable: one storage segment
    Wide,     // a 96-byte variable: three segments
    Balance,  // the mutable record of an account, through its balance
    Counter,  // the mutable record of an account, through its counter
    NonCore,  // the optional sections of a template
    Core,     // the mandatory sections of a template
    Account,  // a whole account
}
const KINDS: [Kind; 7] = [Kind::Var, Kind::Account, Kind::Balance, Kind::Wide, Kind::NonCore, Kind::Counter, Kind::Core];

pub struct World {
    pub gs: GlobalState,
    profile: usize,
    nkeys: usize,
}

fn addr(kind: Kind, k: usize) -> Address {
    let mut b = [0u8; 20];
    b[0] = 0xA0 + kind as u8;
    b[19] = k as u8;
    Address::from(b)
}
fn taddr(kind: Kind, k: usize) -> TemplateAddr {
    let mut b = [0u8; 20];
    b[0] = 0xB0 + kind as u8;
    b[19] = k as u8;
    TemplateAddr::from(b)
}
fn base_template() -> TemplateAddr {
    TemplateAddr::from([0x77; 20])
}
fn holder() -> Address {
    Address::from([0x55; 20])
}

fn core_sections(code: Vec<u8>, sizes: &[u32]) -> Sections {
    Template::new(
        CodeSection::new(CodeKind::Wasm, code, 0, GasMode::Fixed, 0),
        DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, sizes))),
        CtorsSection::new(vec!["init".into()]),
    )
    .sections()
    .clone()
}

fn pattern(v: i64, k: usize, n: usize) -> Vec<u8> {
    match v {
        -1 | 0 => vec![0; n],
        1 => vec![0xff; n],
        2 => { let mut b = vec![0; n]; b[0] = 1; b }
        3 => { let mut b = vec![0; n]; b[n - 1] = 1; b }
        4 => (0..n).map(|i| (i + 7 * k) as u8).collect(),
        _ => (0..n).map(|i| ((i as i64) * 31 + v * 17 + k as i64) as u8).collect(),
    }
}
/// Distinct numbers, all different from the initial one.
fn number(v: i64) -> u64 {
    match v {
        -1 => 1000,
        0 => 0,
        1 => u64::MAX,
        2 => 1 << 63,
        3 => 1,
        4 => 255,
        _ => 2000 + v as u64,
    }
}
fn counter(v: i64) -> u128 {
    match v {
        -1 => 1000,
        1 => u128::MAX,
        2 => 1 << 64,
        _ => number(v) as u128,
    }
}
fn text(v: i64) -> String {
    match v {
        -1 => "base".into(),
        0 => "".into(),
        1 => "x".repeat(255),
        2 => "\u{0}".into(),
        3 => "\u{e9}\u{4e2d}".into(),
        _ => format!("text {}", v),
    }
}
fn code(v: i64) -> Vec<u8> {
    match v {
        -1 => vec![1, 2, 3],
        0 => vec![],
        1 => vec![0xaa; 3000],
        _ => pattern(v, 3, 20 + v as usize),
    }
}

impl World {
    fn kind(&self, k: usize) -> Kind {
        KINDS[(k + self.profile) % KINDS.len()]
    }

    pub async fn open(uri: &str, profile: usize, nkeys: usize) -> World {
        let gs = GlobalState::new(uri, GenesisConfig::mainnet()).await;
        World { gs, profile, nkeys }
    }

    /// The base layer: everything that has to exist before the keys can be written.
    pub async fn setup(&mut self) -> Result<(), StorageError> {
        let gs = self.gs.clone();
        let mut sizes = vec![];
        for k in 0..self.nkeys {
            sizes.push(32);
            if self.kind(k) == Kind::Wide {
                *sizes.last_mut().unwrap() = 96;
            }
        }
        TemplateStorage::create(gs.clone(), &base_template(), core_sections(vec![9], &sizes), Sections::default()).await?;
        AccountStorage::create(gs.clone(), &holder(), "holder".into(), base_template(), 5, 6).await?;
        for k in 0..self.nkeys {
            match self.kind(k) {
                Kind::Balance => {
                    AccountStorage::create(gs.clone(), &addr(Kind::Balance, k), "b".into(), base_template(), number(-1), 3).await?;
                }
                Kind::Counter => {
                    AccountStorage::create(gs.clone(), &addr(Kind::Counter, k), "c".into(), base_template(), 4, counter(-1)).await?;
                }
                Kind::NonCore | Kind::Core => {
                    let mut non = Sections::default();
                    non.insert(Section::Header(HeaderSection::new(1, "n".into(), text(-1))));
                    TemplateStorage::create(gs.clone(), &taddr(self.kind(k), k), core_sections(code(-1), &[4]), non).await?;
                }
                _ => {}
            }
        }
        self.gs.checkpoint().await?;
        self.gs.commit().await?;
        Ok(())
    }

    /// Whether the base layer is there.
    pub async fn base_exists(&self) -> Result<bool, StorageError> {
        let mut gs = self.gs.clone();
        // before the base layer there is no layer that current_layer can name
        *gs.layer_query_parameter_mut() = None;
        match AccountStorage::load(gs, &holder()).await {
            Ok(_) => Ok(true),
            Err(StorageError::NotFound { .. }) => Ok(false),
            Err(e) => Err(e),
        }
    }

    pub async fn set(&mut self, k: usize, v: i64) -> Result<(), StorageError> {
        let gs = self.gs.clone();
        match self.kind(k) {
            Kind::Var => AccountStorage::load(gs, &holder()).await?.set_var_bytes(k as u32, &pattern(v, k, 32)).await,
            Kind::Wide => AccountStorage::load(gs, &holder()).await?.set_var_bytes(k as u32, &pattern(v, k, 96)).await,
            Kind::Balance => AccountStorage::load(gs, &addr(Kind::Balance, k)).await?.set_balance(number(v)).await,
            Kind::Counter => AccountStorage::load(gs, &addr(Kind::Counter, k)).await?.set_counter(counter(v)).await,
            Kind::NonCore => {
                let mut s = Sections::default();
                s.insert(Section::Header(HeaderSection::new(v as u32, "n".into(), text(v))));
                TemplateStorage::load(gs, &taddr(Kind::NonCore, k))?.set_noncore(&s).await
            }
            Kind::Core => TemplateStorage::load(gs, &taddr(Kind::Core, k))?.set_core(&core_sections(code(v), &[4])).await,
            Kind::Account => AccountStorage::create(gs, &addr(Kind::Account, k), text(v), base_template(), number(v), counter(v)).await.map(|_| ()),
        }
    }

    /// What a read of key `k` is expected to show when its value is `v`.
    fn expect(&self, k: usize, v: i64) -> String {
        match self.kind(k) {
            Kind::Var => hex(&pattern(v, k, 32)),
            Kind::Wide => hex(&pattern(v, k, 96)),
            Kind::Balance => format!("{}/3", number(v)),
            Kind::Counter => format!("4/{}", counter(v)),
            Kind::NonCore => format!("{}|{}", if v == -1 { 1 } else { v }, text(v)),
            Kind::Core => hex(&code(v)),
            Kind::Account => if v == -1 { "absent".into() } else { format!("{}|{}|{}", text(v), number(v), counter(v)) },
        }
    }

    /// Reads all keys, at the latest state or at a layer.
    pub async fn read_all(&self, at: Option<u64>) -> Vec<Result<String, StorageError>> {
        let mut gs = self.gs.clone();
        *gs.layer_query_parameter_mut() = at.map(Layer);
        let h = AccountStorage::load(gs.clone(), &holder()).await;
        let mut out = vec![];
        for k in 0..self.nkeys {
            out.push(match (self.kind(k), &h) {
                (Kind::Var | Kind::Wide, Ok(h)) => h.get_var_vec(k as u32).await.map(|b| hex(&b)),
                _ => self.read(gs.clone(), k).await,
            });
        }
        out
    }

    async fn read(&self, gs: GlobalState, k: usize) -> Result<String, StorageError> {
        Ok(match self.kind(k) {
            Kind::Var | Kind::Wide => hex(&AccountStorage::load(gs, &holder()).await?.get_var_vec(k as u32).await?),
            Kind::Balance | Kind::Counter => {
                let a = AccountStorage::load(gs, &addr(self.kind(k), k)).await?;
                format!("{}/{}", a.balance().await?, a.counter().await?)
            }
            Kind::NonCore => {
                let s = TemplateStorage::load(gs, &taddr(Kind::NonCore, k))?.sections().await?;
                let h = s.get(SectionKind::Header).as_header().clone();
                format!("{}|{}", h.code_version(), h.desc())
            }
            Kind::Core => {
                let s = TemplateStorage::load(gs, &taddr(Kind::Core, k))?.sections().await?;
                hex(s.get(SectionKind::Code).as_code().code())
            }
            Kind::Account => match AccountStorage::load(gs, &addr(Kind::Account, k)).await {
                Ok(a) => format!("{}|{}|{}", a.name().await?, a.balance().await?, a.counter().await?),
                Err(StorageError::NotFound { .. }) => "absent".into(),
                Err(e) => return Err(e),
            },
        })
    }
}

pub fn res<T>(r: Result<T, StorageError>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(StorageError::DirtyChanges) => "dirty".into(),
        Err(e) => format!("error {:?}", e),
    }
}

fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}

/// Runs a future, turning a panic into an error.
pub fn guard<T>(rt: &tokio::runtime::Runtime, f: impl Future<Output = T>) -> Result<T, String> {
    no_panic(|| rt.block_on(f))
}

pub struct Roots {
    by_content: HashMap<String, String>,
    by_root: HashMap<String, String>,
}
impl Roots {
    pub fn new() -> Self {
        Roots { by_content: HashMap::new(), by_root: HashMap::new() }
    }
    /// Err((expected, got)) if `root` is not the root of `content`.
    pub fn check(&mut self, content: &str, root: &str) -> Result<(), (String, String)> {
        if let Some(r) = self.by_content.get(content) {
            if r != root {
                return Err((format!("root {} of the contents {}", r, content), root.into()));
            }
        } else if let Some(c) = self.by_root.get(root) {
            return Err((format!("a root of its own for {}", content), format!("the root {} of {}", root, c)));
        }
        self.by_content.insert(content.into(), root.into());
        self.by_root.insert(root.into(), content.into());
        Ok(())
    }
}

/// Compares everything observable with the specification's state.
/// `specific` is the property that the last operation is about.
#[allow(clippy::too_many_arguments)]
pub fn compare(
    rt: &tokio::runtime::Runtime, w: &mut World, st: &Value, specific: &[&'static str],
    roots: &mut Roots, rep: &mut Report, wher: &Value, last: bool,
) -> bool {
    let mut mine = false;
    let latest = ints(&st["latest"]);
    let layers: Vec<Vec<i64>> = st["layers"].as_array().unwrap().iter().map(ints).collect();
    let head = layers.len() - 1;
    let with = |p: &'static str| { let mut v = vec![p]; v.extend(specific.iter().filter(|x| **x != p)); v };
    let show = |r: &Result<String, StorageError>| match r { Ok(s) => s.clone(), Err(e) => format!("{:?}", e) };
    let deep = st["op"] != "set" && st["op"] != "checkpoint" || last;
    let views = std::iter::once((None, &latest)).chain(layers.iter().enumerate().filter(|_| deep).map(|(l, c)| (Some(l as u64), c)));
    for (at, c) in views {
        let (p, what) = if at.is_none() { ("S01", "latest read") } else { ("S03", "read at a past layer") };
        match guard(rt, w.read_all(at)) {
            Ok(v) => for k in 0..w.nkeys {
                let (exp, got) = (w.expect(k, c[k]), show(&v[k]));
                rep.count(if at.is_none() { "reads" } else { "historical_reads" }, 1);
                if got != exp {
                    mine |= rep.mismatch(&with(p), what, json!(exp), json!(got), json!([wher, k, format!("{:?}", w.kind(k)), at]));
                }
            },
            Err(e) => mine |= rep.mismatch(&with(p), what, json!("values"), json!(format!("panic {}", e)), json!([wher, at])),
        }
    }
    let d = w.gs.has_uncommitted_changes();
    if json!(d) != st["dirty"] {
        mine |= rep.mismatch(&with("S02"), "dirty flag", st["dirty"].clone(), json!(d), wher.clone());
    }
    match guard(rt, w.gs.current_layer()) {
        Ok(Ok((l, root))) => {
            if l.0 != head as u64 {
                mine |= rep.mismatch(&with("S02"), "current layer", json!(head), json!(l.0), wher.clone());
            }
            let content = format!("{}:{}:{:?}", w.profile, w.nkeys, layers[head]);
            rep.count("roots", 1);
            if let Err((e, g)) = roots.check(&content, &hex(&root.0)) {
                mine |= rep.mismatch(&with("S05"), "root", json!(e), json!(g), wher.clone());
            }
        }
        Ok(Err(e)) => mine |= rep.mismatch(&with("S02"), "current layer", json!(head), json!(format!("{:?}", e)), wher.clone()),
        Err(p) => mine |= rep.mismatch(&with("S02"), "current layer", json!(head), json!(format!("panic {}", p)), wher.clone()),
    }
    mine
}

pub fn run(args: Args) {
    let rt = rt();
    let mut rep = Report::new(&args);
    let profiles = args.u64("profiles", 1) as usize;
    let file_db = args.str("db", "mem") == "file";
    let mut roots = Roots::new();
    for (i, t) in traces(&args.str("in", "")) {
        let steps = t.as_array().unwrap();
        if steps.is_empty() { continue; }
        let nkeys = steps[0]["latest"].as_array().unwrap().len();
        for pi in 0..profiles {
            let profile = (i + pi) % KINDS.len();
            let path = scratch(&format!("s{}-{}.db", std::process::id(), i));
            let _ = std::fs::remove_file(&path);
            let uri = if file_db { format!("sqlite://{}?mode=rwc", path.display()) } else { ":memory:".to_string() };
            let opened = guard(&rt, async {
                let mut w = World::open(&uri, profile, nkeys).await;
                w.setup().await.map(|_| w)
            });
            let mut wo = match opened {
                Ok(Ok(w)) => Some(w),
                Ok(Err(e)) => { rep.mismatch(&["S01", "S02", "S03", "S04", "S05", "S07"], "setup", json!("ok"), json!(format!("{:?}", e)), json!(i)); continue; }
                Err(p) => { rep.mismatch(&["S01", "S02", "S03", "S04", "S05", "S07"], "setup", json!("ok"), json!(format!("panic {}", p)), json!(i)); continue; }
            };
            rep.count("behaviours", 1);
            for (j, s) in steps.iter().enumerate() {
                let (a, b) = (s["a"].as_i64().unwrap(), s["b"].as_i64().unwrap());
                let op = s["op"].as_str().unwrap();
                rep.count(&format!("op_{}", op), 1);
                let mut specific: Vec<&'static str> = vec![];
                if op == "reopen" && file_db {
                    drop(wo.take());
                    match guard(&rt, World::open(&uri, profile, nkeys)) {
                        Ok(n) => wo = Some(n),
                        Err(p) => {
                            rep.mismatch(&["S07"], "reopen", json!("ok"), json!(format!("panic {}", p)), json!({"trace": i, "step": j, "profile": profile, "steps": steps}));
                            break;
                        }
                    }
                }
                let w = wo.as_mut().unwrap();
                let r: Result<String, String> = match op {
                    "set" => guard(&rt, w.set(a as usize - 1, b)).map(res),
                    "checkpoint" => guard(&rt, w.gs.checkpoint()).map(res),
                    "rollback" => { specific.push("S02"); guard(&rt, w.gs.rollback()).map(res) }
                    "commit" => { if s["res"] == "dirty" { specific.push("S02"); } guard(&rt, w.gs.commit()).map(res) }
                    "seal" => guard(&rt, async { w.gs.checkpoint().await?; w.gs.commit().await }).map(res),
                    "rewind" => { specific.push(if s["res"] == "dirty" { "S02" } else { "S04" }); guard(&rt, w.gs.rewind(Layer(a as u64 - 1))).map(res) }
                    "reopen" => {
                        specific.push("S07");
                        if file_db {
                            Ok("ok".into())
                        } else {
                            // an in-memory database cannot be reopened: its pending writes are dropped
                            // the way a refused or abandoned transaction drops them
                            let _ = guard(&rt, w.gs.rollback());
                            let head = s["layers"].as_array().unwrap().len() as u64 - 1;
                            guard(&rt, w.gs.rewind(Layer(head))).map(res)
                        }
                    }
                    _ => unreachable!("{}", op),
                };
                let wher = json!({"trace": i, "step": j, "op": op, "profile": profile, "steps": &steps[..=j]
                    .iter().map(|x| json!([x["op"], x["a"], x["b"]])).collect::<Vec<_>>()});
                let got = match r { Ok(s) => s, Err(p) => format!("panic {}", p) };
                let mut mine = false;
                if json!(got) != s["res"] {
                    let mut props = vec!["S02"];
                    props.extend(specific.iter().filter(|x| **x != "S02"));
                    if op == "set" { props.push("S01"); }
                    mine |= rep.mismatch(&props, &format!("outcome of {}", op), s["res"].clone(), json!(got), wher.clone());
                }
                mine |= compare(&rt, w, s, &specific, &mut roots, &mut rep, &wher, j + 1 == steps.len());
                rep.count("steps", 1);
                if mine { break; }
            }
            if i < 2 && pi == 0 {
                rep.sample(json!({"behaviour": steps.iter().map(|x| json!([x["op"], x["a"], x["b"], x["res"]])).collect::<Vec<_>>(), "profile": profile}));
            }
            drop(wo);
            if file_db { let _ = std::fs::remove_file(&path); }
        }
    }
    rep.count("distinct_contents", roots.by_content.len() as u64);
    rep.finish();
}
