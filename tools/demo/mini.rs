// A tiny numeric evaluator of HUGR programs (dense state vector), for demonstrations.
#![allow(dead_code)]
use hugr::extension::prelude::ConstUsize;
use hugr::ops::{OpTrait, OpType, Value};
use hugr::std_extensions::arithmetic::float_types::ConstF64;
use hugr::std_extensions::arithmetic::int_types::ConstInt;
use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use std::collections::{HashMap, VecDeque};
use tket::extension::rotation::ConstRotation;

pub type C = (f64, f64);
fn mul(a: C, b: C) -> C { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
fn add(a: C, b: C) -> C { (a.0 + b.0, a.1 + b.1) }
fn sc(s: f64, a: C) -> C { (s * a.0, s * a.1) }
fn ei(t: f64) -> C { (t.cos(), t.sin()) }

#[derive(Clone, Debug, PartialEq)]
pub enum V { F(f64), I(u64), Q(usize), S(usize, Vec<V>), A(Vec<Option<V>>), Fn(Node) }
pub fn b(x: bool) -> V { V::S(x as usize, vec![]) }
impl V {
    pub fn f(&self) -> f64 { if let V::F(x) = self { *x } else { panic!("not a float {self:?}") } }
    pub fn q(&self) -> usize { if let V::Q(x) = self { *x } else { panic!("not a qubit {self:?}") } }
    pub fn t(&self) -> usize { if let V::S(x, _) = self { *x } else { panic!("not a sum {self:?}") } }
    pub fn i(&self) -> u64 { if let V::I(x) = self { *x } else { panic!("not an int {self:?}") } }
}

/// The state of `n` qubits; `outcomes` are the forced measurement outcomes.
pub struct Sim { pub n: usize, pub st: Vec<C>, pub outcomes: VecDeque<bool>, pub log: Vec<String> }

impl Sim {
    /// n qubits in the basis state `x` (qubit i is bit i)
    pub fn new(n: usize, x: usize) -> Self {
        let mut st = vec![(0., 0.); 1 << n];
        st[x] = (1., 0.);
        Sim { n, st, outcomes: VecDeque::new(), log: vec![] }
    }
    fn u1(&mut self, q: usize, m: [C; 4]) { self.cu(&[], q, m) }
    fn cu(&mut self, cs: &[usize], q: usize, m: [C; 4]) {
        let bit = 1 << q;
        for i in 0..self.st.len() {
            if i & bit == 0 && cs.iter().all(|c| i >> c & 1 == 1) {
                let (a, c) = (self.st[i], self.st[i | bit]);
                self.st[i] = add(mul(m[0], a), mul(m[1], c));
                self.st[i | bit] = add(mul(m[2], a), mul(m[3], c));
            }
        }
    }
    fn alloc(&mut self) -> usize {
        self.st.extend(vec![(0., 0.); self.st.len()]);
        self.n += 1;
        self.n - 1
    }
    fn measure(&mut self, q: usize) -> bool {
        let r = self.outcomes.pop_front().unwrap_or(false);
        for i in 0..self.st.len() {
            if (i >> q & 1 == 1) != r { self.st[i] = (0., 0.) }
        }
        r
    }
    fn flip(&mut self, q: usize) { self.u1(q, [(0., 0.), (1., 0.), (1., 0.), (0., 0.)]) }
    fn gate(&mut self, name: &str, q: &[usize], a: &[f64]) -> bool {
        let h = std::f64::consts::FRAC_1_SQRT_2;
        let (o, l) = ((0., 0.), (1., 0.));
        let x = [o, l, l, o];
        let y = [o, (0., -1.), (0., 1.), o];
        let z = [l, o, o, (-1., 0.)];
        let rz = |t: f64| [ei(-t / 2.), o, o, ei(t / 2.)];
        let px = |t: f64, p: f64| {
            let (c, s) = ((t / 2.).cos(), (t / 2.).sin());
            [(c, 0.), mul((0., -s), ei(-p)), mul((0., -s), ei(p)), (c, 0.)]
        };
        let pi = std::f64::consts::PI;
        match name {
            "H" => self.u1(q[0], [(h, 0.), (h, 0.), (h, 0.), (-h, 0.)]),
            "X" => self.u1(q[0], x),
            "Y" => self.u1(q[0], y),
            "Z" => self.u1(q[0], z),
            "S" => self.u1(q[0], [l, o, o, (0., 1.)]),
            "Sdg" => self.u1(q[0], [l, o, o, (0., -1.)]),
            "T" => self.u1(q[0], [l, o, o, ei(pi / 4.)]),
            "Tdg" => self.u1(q[0], [l, o, o, ei(-pi / 4.)]),
            "V" => self.u1(q[0], px(pi / 2., 0.)),
            "Vdg" => self.u1(q[0], px(-pi / 2., 0.)),
            "Rx" => self.u1(q[0], px(a[0] * pi, 0.)),
            "Ry" => self.u1(q[0], px(a[0] * pi, pi / 2.)),
            "Rz" if a.len() == 1 && a[0].is_nan() => return false,
            "Rz" => self.u1(q[0], rz(a[0] * pi)),
            "CX" => self.cu(&q[..1], q[1], x),
            "CY" => self.cu(&q[..1], q[1], y),
            "CZ" => self.cu(&q[..1], q[1], z),
            "CRz" => self.cu(&q[..1], q[1], rz(a[0] * pi)),
            "Toffoli" => self.cu(&q[..2], q[2], x),
            "qRz" => self.u1(q[0], rz(a[0])),
            "qPhasedX" => self.u1(q[0], px(a[0], a[1])),
            "qZZPhase" => {
                let t = a[0];
                for i in 0..self.st.len() {
                    let s = if (i >> q[0] & 1) == (i >> q[1] & 1) { -1. } else { 1. };
                    self.st[i] = mul(self.st[i], ei(s * t / 2.));
                }
            }
            _ => return false,
        }
        true
    }

    fn konst(v: &Value) -> V {
        match v {
            Value::Sum(s) => V::S(s.tag, s.values.iter().map(Self::konst).collect()),
            Value::Extension { e } => {
                let v = e.value();
                if let Some(c) = v.downcast_ref::<ConstF64>() { return V::F(c.value()) }
                if let Some(c) = v.downcast_ref::<ConstRotation>() { return V::F(c.half_turns()) }
                if let Some(c) = v.downcast_ref::<ConstInt>() { return V::I(c.value_u()) }
                if let Some(c) = v.downcast_ref::<ConstUsize>() { return V::I(c.value()) }
                if let Some(c) = v.downcast_ref::<tket::extension::bool::ConstBool>() { return b(c.value()) }
                panic!("constant {v:?}")
            }
            _ => panic!("constant {v:?}"),
        }
    }

    pub fn region(&mut self, h: &Hugr, parent: Node, ins: &[V]) -> Vec<V> {
        let mut vals: HashMap<(Node, usize), V> = HashMap::new();
        let [i, o] = h.get_io(parent).unwrap();
        for (k, v) in ins.iter().enumerate() { vals.insert((i, k), v.clone()); }
        let mut todo: Vec<Node> = h.children(parent).filter(|n| *n != i && *n != o).collect();
        let mut done: Vec<Node> = vec![i];
        while !todo.is_empty() {
            let k = todo.iter().position(|&n| {
                h.input_neighbours(n).all(|m| h.get_parent(m) != Some(parent) || done.contains(&m) || matches!(h.get_optype(m), OpType::Const(_)))
            }).expect("cyclic region");
            let n = todo.remove(k);
            done.push(n);
            let op = h.get_optype(n);
            if matches!(op, OpType::Const(_) | OpType::FuncDefn(_)) { continue }
            let nin = op.dataflow_signature().map_or(0, |s| s.input_count());
            let args: Vec<V> = (0..nin).map(|p| Self::input(h, &vals, n, p)).collect();
            let outs = self.node(h, n, op, args);
            for (k, v) in outs.into_iter().enumerate() { vals.insert((n, k), v); }
        }
        let nout = h.get_optype(o).dataflow_signature().unwrap().input_count();
        (0..nout).map(|p| Self::input(h, &vals, o, p)).collect()
    }
    fn input(h: &Hugr, vals: &HashMap<(Node, usize), V>, n: Node, p: usize) -> V {
        let (m, q) = h.single_linked_output(n, IncomingPort::from(p)).unwrap_or_else(|| panic!("unconnected input {n}.{p} {}", h.get_optype(n)));
        vals.get(&(m, q.index())).unwrap_or_else(|| panic!("no value {m}.{q:?}")).clone()
    }
    fn node(&mut self, h: &Hugr, n: Node, op: &OpType, a: Vec<V>) -> Vec<V> {
        match op {
            OpType::LoadConstant(_) => {
                let c = h.static_source(n).unwrap();
                vec![Self::konst(h.get_optype(c).as_const().unwrap().value())]
            }
            OpType::LoadFunction(_) => vec![V::Fn(h.static_source(n).unwrap())],
            OpType::DFG(_) => self.region(h, n, &a),
            OpType::Call(_) => self.region(h, h.static_source(n).unwrap(), &a),
            OpType::CallIndirect(_) => {
                let V::Fn(f) = a[0] else { panic!() };
                self.region(h, f, &a[1..])
            }
            OpType::Conditional(_) => {
                let V::S(t, row) = &a[0] else { panic!("{a:?}") };
                let case = h.children(n).nth(*t).unwrap();
                let ins: Vec<V> = row.iter().cloned().chain(a[1..].iter().cloned()).collect();
                self.region(h, case, &ins)
            }
            OpType::TailLoop(_) => {
                let mut ins = a;
                for _ in 0..1000 {
                    let r = self.region(h, n, &ins);
                    let V::S(t, row) = &r[0] else { panic!() };
                    let next: Vec<V> = row.iter().cloned().chain(r[1..].iter().cloned()).collect();
                    if *t == 1 { return next }
                    ins = next;
                }
                panic!("loop does not end")
            }
            OpType::CFG(_) => {
                let mut blk = h.children(n).next().unwrap();
                let mut ins = a;
                loop {
                    if matches!(h.get_optype(blk), OpType::ExitBlock(_)) { return ins }
                    let r = self.region(h, blk, &ins);
                    let V::S(t, row) = &r[0] else { panic!() };
                    ins = row.iter().cloned().chain(r[1..].iter().cloned()).collect();
                    blk = h.linked_inputs(blk, OutgoingPort::from(*t)).next().unwrap().0;
                }
            }
            OpType::Tag(t) => vec![V::S(t.tag, a)],
            OpType::ExtensionOp(e) => {
                let ext = e.def().extension_id().to_string();
                let name = e.def().name().to_string();
                self.ext(h, &ext, &name, a, e)
            }
            _ => panic!("operation {op}"),
        }
    }
    fn ext(&mut self, h: &Hugr, ext: &str, name: &str, a: Vec<V>, e: &hugr::ops::ExtensionOp) -> Vec<V> {
        let qs: Vec<usize> = a.iter().filter_map(|v| if let V::Q(q) = v { Some(*q) } else { None }).collect();
        let fs: Vec<f64> = a.iter().filter_map(|v| if let V::F(q) = v { Some(*q) } else { None }).collect();
        let qv = |qs: &[usize]| qs.iter().map(|q| V::Q(*q)).collect::<Vec<_>>();
        match (ext, name) {
            ("tket.quantum", "Measure") => { let r = self.measure(qs[0]); vec![a[0].clone(), b(r)] }
            ("tket.quantum", "MeasureFree") | ("tket.qsystem", "Measure") | ("tket.qsystem", "LazyMeasure") => vec![b(self.measure(qs[0]))],
            ("tket.qsystem", "MeasureReset") | ("tket.qsystem", "LazyMeasureReset") => {
                let r = self.measure(qs[0]);
                if r { self.flip(qs[0]) }
                vec![a[0].clone(), b(r)]
            }
            (_, "Reset") => { if self.measure(qs[0]) { self.flip(qs[0]) } vec![a[0].clone()] }
            (_, "QAlloc") => vec![V::Q(self.alloc())],
            (_, "TryQAlloc") => { let q = self.alloc(); vec![V::S(1, vec![V::Q(q)])] }
            (_, "QFree") => vec![],
            ("tket.quantum", _) => { assert!(self.gate(name, &qs, &fs), "gate {name}"); qv(&qs) }
            ("tket.qsystem", "RuntimeBarrier") => a,
            ("tket.qsystem", _) => { assert!(self.gate(&format!("q{name}"), &qs, &fs), "gate {name}"); qv(&qs) }
            ("tket.rotation", "from_halfturns_unchecked") | ("tket.rotation", "to_halfturns") => a,
            ("tket.rotation", "from_halfturns") => vec![V::S(1, a)],
            ("tket.rotation", "radd") => vec![V::F(fs[0] + fs[1])],
            ("arithmetic.float", "fadd") => vec![V::F(fs[0] + fs[1])],
            ("arithmetic.float", "fsub") => vec![V::F(fs[0] - fs[1])],
            ("arithmetic.float", "fmul") => vec![V::F(fs[0] * fs[1])],
            ("arithmetic.float", "fdiv") => vec![V::F(fs[0] / fs[1])],
            ("arithmetic.float", "ffloor") => vec![V::F(fs[0].floor())],
            ("arithmetic.float", "fneg") => vec![V::F(-fs[0])],
            ("tket.bool", "read") | ("tket.bool", "make_opaque") => a,
            ("tket.futures", "Read") => a,
            ("tket.futures", "Dup") => vec![a[0].clone(), a[0].clone()],
            ("tket.futures", "Free") => vec![],
            ("tket.bool", "not") | ("logic", "Not") => vec![b(a[0].t() == 0)],
            ("tket.bool", "and") | ("logic", "And") => vec![b(a.iter().all(|x| x.t() == 1))],
            ("tket.bool", "or") | ("logic", "Or") => vec![b(a.iter().any(|x| x.t() == 1))],
            ("tket.bool", "eq") | ("logic", "Eq") => vec![b(a[0].t() == a[1].t())],
            ("tket.bool", "xor") | ("logic", "Xor") => vec![b(a[0].t() != a[1].t())],
            ("prelude", "MakeTuple") => vec![V::S(0, a)],
            ("prelude", "UnpackTuple") => { let V::S(_, r) = &a[0] else { panic!() }; r.clone() }
            ("prelude", "Barrier") => a,
            ("prelude", "Noop") => a,
            ("prelude", "panic") => { self.log.push("panic".into()); std::panic::panic_any("program panic".to_string()) }
            (_, "new_array") => vec![V::A(a.into_iter().map(Some).collect())],
            (_, "unpack") => { let V::A(r) = &a[0] else { panic!() }; r.iter().map(|x| x.clone().unwrap()).collect() }
            (_, "borrow") => {
                let V::A(mut r) = a[0].clone() else { panic!() };
                let i = a[1].i() as usize;
                if i >= r.len() || r[i].is_none() { self.log.push("panic".into()); std::panic::panic_any("program panic".to_string()) }
                let v = r[i].take().unwrap();
                vec![V::A(r), v]
            }
            (_, "return") => {
                let V::A(mut r) = a[0].clone() else { panic!() };
                let i = a[1].i() as usize;
                if i >= r.len() || r[i].is_some() { self.log.push("panic".into()); std::panic::panic_any("program panic".to_string()) }
                r[i] = Some(a[2].clone());
                vec![V::A(r)]
            }
            (_, "ilt_u") => vec![b(a[0].i() < a[1].i())],
            (_, "ilt_s") => vec![b((a[0].i() as i64) < (a[1].i() as i64))],
            (_, "get") => {
                let V::A(r) = &a[0] else { panic!() };
                let v = r.get(a[1].i() as usize).cloned().flatten();
                vec![match v { Some(v) => V::S(1, vec![v]), None => V::S(0, vec![]) }, a[0].clone()]
            }
            (_, "convert_u") | (_, "itousize") | (_, "ifromusize") => a,
            _ => { let _ = (h, e); panic!("operation {ext}.{name}") }
        }
    }
}

pub fn find_main(h: &Hugr) -> Node {
    if matches!(h.get_optype(h.entrypoint()), OpType::Module(_)) {
        return h.children(h.module_root()).find(|n| matches!(h.get_optype(*n), OpType::FuncDefn(f) if f.func_name() == "main")).expect("main");
    }
    h.entrypoint()
}

/// run the entry point on the n-qubit basis state x followed by `rest`; returns the state with output qubit i moved to position i, the
/// classical outputs, and qubits not returned in the top positions
pub fn run(h: &Hugr, n: usize, x: usize, rest: &[V], outcomes: &[bool]) -> (Vec<C>, Vec<V>) {
    let mut s = Sim::new(n, x);
    s.outcomes = outcomes.iter().copied().collect();
    let ins: Vec<V> = (0..n).map(V::Q).chain(rest.iter().cloned()).collect();
    let outs = s.region(h, find_main(h), &ins);
    let mut perm: Vec<usize> = vec![];
    fn flat(v: &V, perm: &mut Vec<usize>) {
        match v {
            V::Q(q) => perm.push(*q),
            V::S(_, r) => r.iter().for_each(|x| flat(x, perm)),
            V::A(r) => r.iter().flatten().for_each(|x| flat(x, perm)),
            _ => {}
        }
    }
    outs.iter().for_each(|v| flat(v, &mut perm));
    let cl: Vec<V> = outs.iter().filter(|v| !matches!(v, V::Q(_))).cloned().collect();
    for q in 0..s.n { if !perm.contains(&q) { perm.push(q) } }
    let mut st = vec![(0., 0.); s.st.len()];
    for (i, a) in s.st.iter().enumerate() {
        let mut j = 0;
        for (k, q) in perm.iter().enumerate() { j |= (i >> q & 1) << k }
        st[j] = *a;
    }
    (st, cl)
}

/// equal up to one global phase
pub fn same(a: &[Vec<C>], b: &[Vec<C>]) -> bool {
    let (a, b): (Vec<C>, Vec<C>) = (a.concat(), b.concat());
    if a.len() != b.len() { return false }
    let k = (0..a.len()).max_by(|x, y| a[*x].0.hypot(a[*x].1).partial_cmp(&a[*y].0.hypot(a[*y].1)).unwrap()).unwrap();
    let n2 = a[k].0.powi(2) + a[k].1.powi(2);
    let ph = sc(1. / n2, mul(b[k], (a[k].0, -a[k].1)));
    a.iter().zip(&b).all(|(x, y)| { let z = mul(ph, *x); (z.0 - y.0).hypot(z.1 - y.1) < 1e-6 })
}

/// the matrix columns of a program on n qubits
pub fn unitary(h: &Hugr, n: usize, rest: &[V], outcomes: &[bool]) -> Vec<Vec<C>> {
    (0..1 << n).map(|x| run(h, n, x, rest, outcomes).0).collect()
}
