//! The code of /repo that is generic over its cost type, run with costs that are linear expressions over unknowns: every question the code asks
//! of a cost (how do these two compare, what sign has this one, is there a cost at all, which states come next) is answered for the assignment in
//! the request and recorded, so that the answers are the path condition of the run.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::io::{BufRead, Write};
use hugr::extension::ExtensionRegistry;
use hugr::ops::{OpTrait, OpType};
use hugr::{Hugr, HugrView};
use std::collections::HashMap;
use std::iter::Sum;
use std::num::NonZeroUsize;
use std::ops::{Add, AddAssign};
use std::sync::{Arc, LazyLock, Mutex};
use tket::circuit::cost::{CircuitCost, CostDelta};
use tket::optimiser::badger::BadgerOptions;
use tket::optimiser::{BacktrackingOptimiser, BadgerOptimiser, Optimiser, OptimiserOptions, State};
use tket::passes::CircuitChunks;
use tket::rewrite::strategy::{ExhaustiveGreedyStrategy, ExhaustiveThresholdStrategy, RewriteStrategy, StrategyCost};
use tket::rewrite::{CircuitRewrite, ECCRewriter, Rewriter};
use tket::Circuit;

thread_local! {
    static EV: RefCell<Vec<J>> = const { RefCell::new(vec![]) };
}
fn ev(j: J) {
    EV.with(|e| e.borrow_mut().push(j))
}

/// the cost of a state: an unknown
#[derive(Clone, Debug)]
struct Cost {
    id: usize,
    v: i64,
}
impl Ord for Cost {
    fn cmp(&self, o: &Self) -> Ordering {
        let r = self.v.cmp(&o.v);
        if self.id != o.id {
            ev(json!(["cmp", self.id, o.id, r as i8]));
        }
        r
    }
}
impl PartialOrd for Cost {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Cost {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Cost {}
impl serde::Serialize for Cost {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.id as u64)
    }
}

struct Space {
    cost: Vec<i64>,
    /// which unknown a state's cost is, and which hash it has
    same: Vec<usize>,
    edge: Vec<Vec<bool>>,
    valid: Vec<bool>,
    hashed: Vec<bool>,
}
#[derive(Clone)]
struct St(usize);
impl State<Space> for St {
    type Cost = Cost;
    fn hash(&self, c: &Space) -> Option<u64> {
        ev(json!(["hashed", self.0, c.hashed[self.0]]));
        c.hashed[self.0].then_some(c.same[self.0] as u64)
    }
    fn cost(&self, c: &Space) -> Option<Cost> {
        ev(json!(["valid", self.0, c.valid[self.0]]));
        c.valid[self.0].then(|| Cost { id: c.same[self.0], v: c.cost[c.same[self.0]] })
    }
    fn next_states(&self, c: &mut Space) -> Vec<Self> {
        let r: Vec<usize> = (0..c.cost.len()).filter(|&j| c.edge[self.0][j]).collect();
        ev(json!(["next", self.0, r]));
        r.into_iter().map(St).collect()
    }
}

fn get<T: serde::de::DeserializeOwned>(r: &J, k: &str) -> T {
    serde_json::from_value(r[k].clone()).unwrap_or_else(|e| panic!("request field {k}: {e}"))
}

fn optimise(r: &J) -> J {
    let s = Space { cost: get(r, "cost"), same: get(r, "same"), edge: get(r, "edge"), valid: get(r, "valid"), hashed: get(r, "hashed") };
    let o = BacktrackingOptimiser { queue_size: get(r, "queue"), timeout: None, progress_timeout: None, max_visited_count: get(r, "max") };
    let n: Option<usize> = get(r, "best");
    let mut opt = OptimiserOptions::default();
    opt.track_n_best = n;
    match o.optimise_with_options(St(0), s, opt) {
        None => json!({"none": true}),
        Some(x) => json!({"best": x.best_state.0, "n_best": x.n_best_states.map(|v| v.into_iter().map(|s| s.0).collect::<Vec<_>>())}),
    }
}

/// a linear expression over the unknowns, and its value under the assignment of the request
#[derive(Clone, Debug, Default)]
struct Lin {
    co: Vec<(usize, i64)>,
    v: i64,
}
impl Lin {
    fn plus(&self, o: &Self, k: i64) -> Self {
        let mut m: std::collections::BTreeMap<usize, i64> = self.co.iter().copied().collect();
        for &(x, c) in &o.co {
            *m.entry(x).or_default() += k * c;
        }
        m.retain(|_, c| *c != 0);
        Lin { co: m.into_iter().collect(), v: self.v + k * o.v }
    }
}
/// a cost of two components, the first infinitely more important; a difference of costs looks the same
#[derive(Clone, Debug, Default)]
struct Sym([Lin; 2]);
fn sym(s: &Sym) -> J {
    json!([s.0[0].co, s.0[1].co])
}
impl Sym {
    fn plus(&self, o: &Self, k: i64) -> Self {
        Sym([self.0[0].plus(&o.0[0], k), self.0[1].plus(&o.0[1], k)])
    }
}
impl Ord for Sym {
    fn cmp(&self, o: &Self) -> Ordering {
        let d = self.plus(o, -1);
        let r = d.0[0].v.cmp(&0).then(d.0[1].v.cmp(&0));
        if !(d.0[0].co.is_empty() && d.0[1].co.is_empty()) {
            ev(json!(["lex", sym(&d), r as i8]));
        }
        r
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Sym {}
impl Add for Sym {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        self.plus(&o, 1)
    }
}
impl AddAssign for Sym {
    fn add_assign(&mut self, o: Self) {
        *self = self.plus(&o, 1)
    }
}
impl Sum for Sym {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Sym::default(), |a, b| a + b)
    }
}
impl serde::Serialize for Sym {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str("cost")
    }
}
impl CostDelta for Sym {
    fn as_isize(&self) -> isize {
        if !self.0[0].co.is_empty() {
            ev(json!(["value", sym(self), self.0[0].v]));
        }
        self.0[0].v as isize
    }
}
impl CircuitCost for Sym {
    type CostDelta = Sym;
    fn as_usize(&self) -> usize {
        self.as_isize() as usize
    }
    fn sub_cost(&self, o: &Self) -> Sym {
        self.plus(o, -1)
    }
    fn add_delta(&self, d: &Sym) -> Self {
        self.plus(d, 1)
    }
    fn div_cost(&self, _: NonZeroUsize) -> Self {
        panic!("division of an unknown cost")
    }
}

/// the unknowns: two per kind of operation
#[derive(Clone)]
struct Costs {
    kinds: Arc<HashMap<String, usize>>,
    other: usize,
    val: Arc<Vec<i64>>,
}
impl Costs {
    fn kind(&self, op: &OpType) -> usize {
        op.as_extension_op().and_then(|e| self.kinds.get(e.unqualified_id()).copied()).unwrap_or(self.other)
    }
    fn of(&self, k: usize) -> Sym {
        let l = |x: usize| Lin { co: vec![(x, 1)], v: self.val[x] };
        Sym([l(2 * k), l(2 * k + 1)])
    }
    fn counts(&self, c: &Circuit<impl HugrView<Node = hugr::Node>>) -> Vec<usize> {
        let h = c.hugr();
        let mut v = vec![0; self.other + 1];
        for n in h.children(c.parent()) {
            let op = h.get_optype(n);
            if !op.is_input() && !op.is_output() {
                v[self.kind(op)] += 1;
            }
        }
        v
    }
}
impl StrategyCost for Costs {
    type OpCost = Sym;
    fn op_cost(&self, op: &OpType) -> Sym {
        self.of(self.kind(op))
    }
}

static REG: LazyLock<ExtensionRegistry> = LazyLock::new(|| {
    ExtensionRegistry::new([
        hugr::extension::prelude::PRELUDE.to_owned(),
        hugr::std_extensions::arithmetic::float_types::EXTENSION.to_owned(),
        hugr::std_extensions::arithmetic::float_ops::EXTENSION.to_owned(),
        tket::extension::TKET_EXTENSION.to_owned(),
        tket::extension::rotation::ROTATION_EXTENSION.to_owned(),
    ])
});
type Eccs = Mutex<HashMap<String, Arc<ECCRewriter>>>;
static ECCS: LazyLock<Eccs> = LazyLock::new(Default::default);
fn ecc(path: &str) -> Arc<ECCRewriter> {
    ECCS.lock().unwrap().entry(path.to_string()).or_insert_with(|| Arc::new(ECCRewriter::try_from_eccs_json_file(path).unwrap())).clone()
}
/// offers the chosen matches only, at the circuits that have them
#[derive(Clone)]
struct Few(Arc<ECCRewriter>, Option<Vec<usize>>, usize);
impl Rewriter for Few {
    fn get_rewrites(&self, c: &Circuit<impl HugrView<Node = hugr::Node>>) -> Vec<CircuitRewrite> {
        let all = self.0.get_rewrites(c);
        match &self.1 {
            Some(k) => k.iter().filter_map(|&i| all.get(i % all.len().max(1)).cloned()).collect(),
            None => all.into_iter().take(self.2).collect(),
        }
    }
}

fn costs(r: &J) -> Costs {
    let kinds: HashMap<String, usize> = get(r, "kinds");
    let other = kinds.len();
    Costs { kinds: Arc::new(kinds), other, val: Arc::new(get(r, "val")) }
}
fn circuit(r: &J) -> Circuit {
    let s = format!("HUGRiHJv?@{}", json!({"modules": [r["hugr"]], "extensions": []}));
    Circuit::new(Hugr::load_str(s, Some(&REG)).unwrap())
}

fn strategy(r: &J) -> J {
    let (k, c) = (costs(r), circuit(r));
    let rw = Few(ecc(r["ecc"].as_str().unwrap()), Some(get(r, "pick")), 0).get_rewrites(&c);
    let cand: Vec<J> = rw
        .iter()
        .map(|w| {
            let mut inv: Vec<usize> = w.invalidation_set().map(|n| usize_of(n)).collect();
            inv.sort();
            inv.dedup();
            let mut pre = vec![0; k.other + 1];
            for &n in w.subgraph().nodes() {
                pre[k.kind(c.hugr().get_optype(n))] += 1;
            }
            let mut nodes: Vec<usize> = w.subgraph().nodes().iter().map(|&n| usize_of(n)).collect();
            nodes.sort();
            json!({"inv": inv, "nodes": nodes, "pre": pre, "post": k.counts(&w.replacement())})
        })
        .collect();
    let before = k.counts(&c);
    EV.with(|e| e.borrow_mut().clear());
    fn go<S: RewriteStrategy<Cost = Sym>>(s: S, rw: Vec<CircuitRewrite>, c: &Circuit, k: &Costs) -> (J, Vec<J>) {
        let total = sym(&s.circuit_cost(c));
        (total, s.apply_rewrites(rw, c).map(|x| json!({"counts": k.counts(&x.circ), "delta": sym(&x.cost_delta), "valid": x.circ.hugr().validate().is_ok()})).collect())
    }
    let (total, res) = match r["strat"].as_str() {
        Some("greedy") => go(ExhaustiveGreedyStrategy::from(k.clone()), rw, &c, &k),
        _ => go(ExhaustiveThresholdStrategy::from(k.clone()), rw, &c, &k),
    };
    json!({"before": before, "total": total, "cand": cand, "results": res})
}
fn usize_of(n: hugr::Node) -> usize {
    use hugr::NodeIndex;
    n.index()
}

fn split(r: &J) -> J {
    let (k, c) = (costs(r), circuit(r));
    let n = r["bound"].as_u64().unwrap() as usize;
    let before = k.counts(&c);
    let ch = CircuitChunks::split_with_cost(&c, k.of(n), |op| k.op_cost(op));
    let parts: Vec<_> = ch.iter().map(|x| k.counts(x)).collect();
    let evs = EV.with(|e| e.borrow().clone());
    let whole = ch.reassemble().map(|x| k.counts(&x)).map_err(|e| e.to_string());
    EV.with(|e| *e.borrow_mut() = evs);
    json!({"before": before, "parts": parts, "whole": whole.as_ref().ok(), "err": whole.as_ref().err()})
}

fn badger(r: &J) -> J {
    let (k, c) = (costs(r), circuit(r));
    let rw = Few(ecc(r["ecc"].as_str().unwrap()), None, get(r, "few"));
    let o = BadgerOptions { queue_size: get(r, "queue"), max_circuit_count: get(r, "max"), ..Default::default() };
    let before = k.counts(&c);
    fn go<S>(s: S, rw: Few, c: &Circuit, o: BadgerOptions, k: &Costs) -> (Circuit, Vec<Vec<usize>>)
    where
        S: RewriteStrategy<Cost = Sym> + Send + Sync + Clone + 'static,
    {
        let x = BadgerOptimiser::new(rw.clone(), s.clone()).optimise(c, o);
        // what one step from the circuit offers
        let first = s.apply_rewrites(rw.get_rewrites(c), c).map(|y| k.counts(&y.circ)).collect();
        (x, first)
    }
    let (x, first) = match r["strat"].as_str() {
        Some("greedy") => go(ExhaustiveGreedyStrategy::from(k.clone()), rw, &c, o, &k),
        _ => go(ExhaustiveThresholdStrategy::from(k.clone()), rw, &c, o, &k),
    };
    json!({"before": before, "after": k.counts(&x), "first": first, "valid": x.hugr().validate().is_ok()})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let r: J = serde_json::from_str(&line.unwrap()).unwrap();
        EV.with(|e| e.borrow_mut().clear());
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match r["kind"].as_str() {
            Some("optimise") => optimise(&r),
            Some("strategy") => strategy(&r),
            Some("split") => split(&r),
            Some("badger") => badger(&r),
            k => panic!("kind {k:?}"),
        }))
        .unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            json!({"panic": m.unwrap_or_default()})
        });
        let evs = EV.with(|e| std::mem::take(&mut *e.borrow_mut()));
        let mut o = out.lock();
        writeln!(o, "{}", json!({"ev": evs, "res": res})).unwrap();
        o.flush().unwrap();
    }
}
