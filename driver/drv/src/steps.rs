use std::collections::HashMap;
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, LazyLock, Mutex};

use hugr::algorithms::ComposablePass;
use hugr::envelope::EnvelopeConfig;
use hugr::extension::{prelude, ExtensionRegistry};
use hugr::hugr::hugrmut::HugrMut;
use hugr::std_extensions::arithmetic::{conversions, float_ops, float_types, int_ops, int_types};
use hugr::std_extensions::{collections, logic, ptr};
use hugr::{Hugr, HugrView};
use serde_json::{json, Value as J};
use tket::circuit::CircuitHash;
use tket::optimiser::badger::{BadgerOptions, BadgerOptimiser};
use tket::passes::{BorrowSquashPass, CircuitChunks, NormalizeGuppy};
use tket::rewrite::strategy::{
    GammaStrategyCost, GreedyRewriteStrategy, LexicographicCostFunction, RewriteStrategy,
};
use tket::resource::ResourceScope;
use tket::subcircuit::CopyableExpr;
use hugr::ops::{OpTag, OpTrait as _};
use hugr::{NodeIndex as _, PortIndex as _};
use tket::rewrite::{ECCRewriter, Rewriter};
use tket::serialize::pytket::{
    DecodeOptions, EncodeOptions, EncodedCircuit, PytketDecoderConfig, TKETDecode,
};
use tket::Circuit;
use tket_json_rs::circuit_json::SerialCircuit;

pub static REG: LazyLock<ExtensionRegistry> = LazyLock::new(|| {
    ExtensionRegistry::new([
        prelude::PRELUDE.to_owned(),
        int_types::EXTENSION.to_owned(),
        int_ops::EXTENSION.to_owned(),
        float_types::EXTENSION.to_owned(),
        float_ops::EXTENSION.to_owned(),
        conversions::EXTENSION.to_owned(),
        logic::EXTENSION.to_owned(),
        ptr::EXTENSION.to_owned(),
        collections::list::EXTENSION.to_owned(),
        collections::array::EXTENSION.to_owned(),
        collections::static_array::EXTENSION.to_owned(),
        collections::borrow_array::EXTENSION.to_owned(),
        collections::value_array::EXTENSION.to_owned(),
        tket_qsystem::extension::futures::EXTENSION.to_owned(),
        tket_qsystem::extension::result::EXTENSION.to_owned(),
        tket_qsystem::extension::qsystem::EXTENSION.to_owned(),
        tket_qsystem::extension::gpu::EXTENSION.to_owned(),
        tket_qsystem::extension::wasm::EXTENSION.to_owned(),
        tket_qsystem::extension::random::EXTENSION.to_owned(),
        tket_qsystem::extension::utils::EXTENSION.to_owned(),
        tket::extension::rotation::ROTATION_EXTENSION.to_owned(),
        tket::extension::TKET_EXTENSION.to_owned(),
        tket::extension::TKET1_EXTENSION.to_owned(),
        tket::extension::bool::BOOL_EXTENSION.to_owned(),
        tket::extension::debug::DEBUG_EXTENSION.to_owned(),
        tket::extension::guppy::GUPPY_EXTENSION.to_owned(),
        tket::extension::modifier::MODIFIER_EXTENSION.to_owned(),
        tket::extension::global_phase::GLOBAL_PHASE_EXTENSION.to_owned(),
    ])
});

type R<T> = Result<T, String>;
fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
fn ed<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

pub fn to_json(h: &Hugr) -> R<J> {
    let s = h.store_str_with_exts(EnvelopeConfig::text(), &REG).or_else(|_| h.store_str(EnvelopeConfig::text())).map_err(es)?;
    let i = s.find('{').ok_or("no payload")?;
    let v: J = serde_json::from_str(&s[i..]).map_err(es)?;
    Ok(v["modules"][0].clone())
}

pub fn from_json(j: &J) -> R<Hugr> {
    let pkg = json!({"modules":[j], "extensions":[]});
    let s = format!("HUGRiHJv?@{}", pkg);
    Hugr::load_str(s, Some(&REG)).map_err(es)
}

fn serial(j: &J) -> R<SerialCircuit> {
    serde_json::from_value(j.clone()).map_err(es)
}

fn dec_cfg(q: bool) -> PytketDecoderConfig {
    if q {
        tket_qsystem::pytket::qsystem_decoder_config()
    } else {
        tket::serialize::pytket::default_decoder_config()
    }
}
fn enc_opts(q: bool, subs: bool) -> EncodeOptions<Hugr> {
    let c = if q {
        tket_qsystem::pytket::qsystem_encoder_config()
    } else {
        tket::serialize::pytket::default_encoder_config()
    };
    EncodeOptions::new().with_config(c).with_subcircuits(subs)
}

static ECCS: LazyLock<Mutex<HashMap<String, Arc<ECCRewriter>>>> = LazyLock::new(Default::default);
fn ecc(path: &str) -> R<Arc<ECCRewriter>> {
    let mut m = ECCS.lock().map_err(es)?;
    if let Some(r) = m.get(path) {
        return Ok(r.clone());
    }
    let r = if let Some(p) = path.strip_suffix("+saved") {
        // through the binary format
        let mut buf = vec![];
        ECCRewriter::try_from_eccs_json_file(p).map_err(es)?.save_binary_io(&mut buf).map_err(es)?;
        ECCRewriter::load_binary_io(&buf[..]).map_err(es)?
    } else if path.ends_with(".rwr") {
        ECCRewriter::load_binary(path).map_err(es)?
    } else {
        ECCRewriter::try_from_eccs_json_file(path).map_err(es)?
    };
    let r = Arc::new(r);
    m.insert(path.to_string(), r.clone());
    Ok(r)
}

/// removes gate pairs that cancel and replaces three alternating CX by crossed wires
fn cancel(c: &mut Circuit) -> Result<usize, String> {
    use tket::TketOp::*;
    let mut k = 0;
    let h = c.hugr_mut();
    let par = h.entrypoint();
    'again: loop {
        let nodes: Vec<_> = h.children(par).collect();
        let op = |h: &Hugr, n| h.get_optype(n).cast::<tket::TketOp>();
        // the node that all `n` outputs of a go to, if its input p[i] is the i-th output of a
        let next = |h: &Hugr, a, p: &[usize]| -> Option<hugr::Node> {
            let mut r = None;
            for (i, p) in p.iter().enumerate() {
                let (b, q) = h.single_linked_input(a, i)?;
                if hugr::PortIndex::index(q) != *p || r.is_some_and(|r| r != b) {
                    return None;
                }
                r = Some(b);
            }
            r
        };
        for a in nodes {
            let Some(o) = op(h, a) else { continue };
            let (inv, n) = match o {
                H | X | Y | Z => (o, 1),
                S => (Sdg, 1),
                Sdg => (S, 1),
                T => (Tdg, 1),
                Tdg => (T, 1),
                V => (Vdg, 1),
                Vdg => (V, 1),
                CX | CZ | CY => (o, 2),
                Toffoli => (o, 3),
                _ => continue,
            };
            let id: Vec<usize> = (0..n).collect();
            let mut plan = None;
            if let Some(b) = next(h, a, &id) {
                if op(h, b) == Some(inv) {
                    plan = Some((vec![a, b], b, id.clone()));
                }
            }
            if plan.is_none() && o == CX {
                if let Some(b) = next(h, a, &[1, 0]) {
                    if op(h, b) == Some(CX) {
                        if let Some(d) = next(h, b, &[1, 0]) {
                            if op(h, d) == Some(CX) {
                                // input i of a leaves at output 1 - i of d (d has the orientation of a)
                                plan = Some((vec![a, b, d], d, vec![1, 0]));
                            }
                        }
                    }
                }
            }
            if let Some((del, last, perm)) = plan {
                let ends: Vec<_> = (0..n)
                    .map(|i| (h.single_linked_output(a, i).unwrap(), h.single_linked_input(last, perm[i]).unwrap()))
                    .collect();
                for n in del {
                    h.remove_node(n);
                }
                for ((sn, sp), (tn, tp)) in ends {
                    h.connect(sn, sp, tn, tp);
                }
                k += 1;
                continue 'again;
            }
        }
        return Ok(k);
    }
}

fn with_strat(
    rw: &ECCRewriter,
    h: &Hugr,
    strat: &str,
    opts: &J,
    info: &mut Vec<J>,
) -> R<Hugr> {
    fn go<S>(rw: &ECCRewriter, h: &Hugr, s: S, o: &J, info: &mut Vec<J>) -> R<Hugr>
    where
        S: RewriteStrategy + Send + Sync + Clone + 'static,
        S::Cost: serde::Serialize + Send + Sync,
    {
        let c = Circuit::try_new(h.clone()).map_err(es)?;
        let mut bo = BadgerOptions::default();
        bo.n_threads = NonZeroUsize::new(o["threads"].as_u64().unwrap_or(1) as usize).unwrap();
        bo.split_circuit = o["split"].as_bool().unwrap_or(false);
        bo.queue_size = o["queue"].as_u64().unwrap_or(10) as usize;
        bo.max_circuit_count = Some(o["count"].as_u64().unwrap_or(50) as usize);
        bo.timeout = Some(o["timeout"].as_u64().unwrap_or(20));
        let before = s.circuit_cost(&c);
        let r = BadgerOptimiser::new(rw.clone(), s.clone()).optimise(&c, bo);
        let after = s.circuit_cost(&r);
        info.push(json!({"cost_before": serde_json::to_value(&before).map_err(es)?,
            "cost_after": serde_json::to_value(&after).map_err(es)?, "worse": after > before}));
        Ok(r.into_hugr())
    }
    match strat {
        "cx" => go(rw, h, LexicographicCostFunction::default_cx_strategy(), opts, info),
        "rz" => go(rw, h, LexicographicCostFunction::rz_count().into_greedy_strategy(), opts, info),
        "greedy" => go(rw, h, GreedyRewriteStrategy, opts, info),
        "thr" => go(rw, h, LexicographicCostFunction::cx_count().into_threshold_strategy(), opts, info),
        "gamma" => go(rw, h, GammaStrategyCost::exhaustive_cx(), opts, info),
        s => Err(format!("unknown strategy {s}")),
    }
}

/// All single-step results of a strategy: every (rewritten circuit, cost delta) plus true costs.
fn strat_results(rw: &ECCRewriter, h: &Hugr, strat: &str, max: usize) -> R<Vec<J>> {
    fn go<S: RewriteStrategy>(rw: &ECCRewriter, h: &Hugr, s: S, max: usize) -> R<Vec<J>>
    where
        S::Cost: serde::Serialize,
        <S::Cost as tket::circuit::cost::CircuitCost>::CostDelta: std::fmt::Debug,
    {
        use tket::circuit::cost::CircuitCost;
        let c = Circuit::try_new(h.clone()).map_err(es)?;
        let rws = rw.get_rewrites(&c);
        let before = s.circuit_cost(&c);
        let mut v = vec![];
        for r in s.apply_rewrites(rws, &c).take(max) {
            let after = s.circuit_cost(&r.circ);
            let pred = before.add_delta(&r.cost_delta);
            v.push(json!({"hugr": to_json(r.circ.hugr())?, "delta": format!("{:?}", r.cost_delta),
                "before": serde_json::to_value(&before).map_err(es)?,
                "after": serde_json::to_value(&after).map_err(es)?,
                "predicted": serde_json::to_value(&pred).map_err(es)?,
                "delta_ok": pred == after}));
        }
        Ok(v)
    }
    match strat {
        "cx" => go(rw, h, LexicographicCostFunction::default_cx_strategy(), max),
        "rz" => go(rw, h, LexicographicCostFunction::rz_count().into_greedy_strategy(), max),
        "greedy" => go(rw, h, GreedyRewriteStrategy, max),
        "thr" => go(rw, h, LexicographicCostFunction::cx_count().into_threshold_strategy(), max),
        "gamma" => go(rw, h, GammaStrategyCost::exhaustive_cx(), max),
        s => Err(format!("unknown strategy {s}")),
    }
}

fn cur_func(h: &Hugr, name: &str) -> Option<hugr::Node> {
    h.children(h.module_root())
        .find(|&n| h.get_optype(n).as_func_defn().is_some_and(|f| f.func_name() == name))
}

fn b(s: &J, k: &str, d: bool) -> bool {
    s[k].as_bool().unwrap_or(d)
}

fn step(h: &mut Hugr, s: &J, info: &mut Vec<J>) -> R<()> {
    match s["t"].as_str().unwrap_or("") {
        "validate" => h.validate().map_err(es)?,
        "entry" => {
            let n = match s["name"].as_str() {
                Some(n) => cur_func(h, n).ok_or("no such function")?,
                None => h.module_root(),
            };
            h.set_entrypoint(n);
        }
        "qsystem" => tket_qsystem::QSystemPass::default()
            .with_constant_fold(b(s, "fold", false))
            .with_monormophize(b(s, "mono", true))
            .with_force_order(b(s, "order", true))
            .with_lazify(b(s, "lazy", true))
            .run(h)
            .map_err(es)?,
        "lower_tk2" => {
            ComposablePass::run(&tket_qsystem::extension::qsystem::LowerTketToQSystemPass, h)
                .map_err(ed)?;
            if let Err(v) = tket_qsystem::extension::qsystem::check_lowered(h) {
                info.push(json!({"not_lowered": v.len()}));
            }
        }
        "replace_bool" => {
            ComposablePass::run(&tket_qsystem::replace_bools::ReplaceBoolPass, h).map_err(ed)?
        }
        "modifiers" => {
            
            ComposablePass::run(&tket::modifier::ModifierResolverPass, h).map_err(ed)?
        }
        "commute" => {
            let mut c = Circuit::try_new(h.clone()).map_err(es)?;
            let n = tket::passes::apply_greedy_commutation(&mut c).map_err(ed)?;
            info.push(json!({"moves": n}));
            *h = c.into_hugr();
        }
        "borrow_squash" => {
            let r = ComposablePass::run(&BorrowSquashPass::default(), h).map_err(ed)?;
            let _ = r;
        }
        "guppy" => {
            let mut p = NormalizeGuppy::default();
            p.simplify_cfgs(b(s, "cfgs", true))
                .remove_tuple_untuple(b(s, "untuple", true))
                .constant_folding(b(s, "fold", true))
                .remove_dead_funcs(b(s, "dead", true))
                .inline_dfgs(b(s, "inline", true))
                .squash_borrows(b(s, "borrows", true));
            ComposablePass::run(&p, h).map_err(ed)?;
        }
        "untuple" => {
            #[allow(deprecated)]
            loop {
                let mut c = Circuit::try_new(h.clone()).map_err(es)?;
                let rws: Vec<_> = {
                    tket::passes::find_tuple_unpack_rewrites(&c).collect()
                };
                let Some(rw) = rws.into_iter().next() else { break };
                rw.apply(&mut c).map_err(ed)?;
                *h = c.into_hugr();
            }
        }
        "chunks" => {
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            let ch = match s["cost"].as_str() {
                Some("cx") => CircuitChunks::split_with_cost(
                    &c,
                    s["n"].as_u64().unwrap() as usize,
                    |op| tket::circuit::cost::is_cx(op) as usize,
                ),
                _ => CircuitChunks::split(&c, s["n"].as_u64().unwrap() as usize),
            };
            // per chunk: operations that are not constants, and CX gates
            let sizes: Vec<_> = ch.iter().map(|c| {
                let g = c.hugr();
                let ops: Vec<_> = g.children(c.parent()).map(|n| g.get_optype(n)).filter(|o| !(o.is_input() || o.is_output() || o.is_const() || o.is_load_constant())).collect();
                json!([ops.len(), ops.iter().filter(|o| tket::circuit::cost::is_cx(o)).count()])
            }).collect();
            info.push(json!({"chunks": ch.len(), "sizes": sizes}));
            *h = ch.reassemble().map_err(es)?.into_hugr();
        }
        "chunks_rewrite" => {
            // split, optimise each chunk with the ECC rewriter, reassemble
            let rw = ecc(s["ecc"].as_str().unwrap())?;
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            let mut ch = CircuitChunks::split(&c, s["n"].as_u64().unwrap() as usize);
            let mut k = 0;
            for cc in ch.iter_mut() {
                let rws: Vec<_> = rw.get_rewrites(cc);
                if let Some(r) = rws.into_iter().min_by_key(|r| r.node_count_delta()) {
                    if r.node_count_delta() <= s["max_delta"].as_i64().unwrap_or(0) as isize {
                        r.apply(cc).map_err(ed)?;
                        k += 1;
                    }
                }
            }
            info.push(json!({"chunks": ch.len(), "applied": k}));
            *h = ch.reassemble().map_err(es)?.into_hugr();
        }
        "chunks_cancel" => {
            // split, remove cancelling pairs and turn CX triples into crossed wires in each chunk, reassemble
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            let mut ch = CircuitChunks::split(&c, s["n"].as_u64().unwrap() as usize);
            let mut k = 0;
            for cc in ch.iter_mut() {
                k += cancel(cc)?;
            }
            info.push(json!({"chunks": ch.len(), "applied": k}));
            *h = ch.reassemble().map_err(es)?.into_hugr();
        }
        "badger" => {
            let rw = ecc(s["ecc"].as_str().unwrap())?;
            *h = with_strat(&rw, h, s["strat"].as_str().unwrap_or("cx"), s, info)?;
        }
        "ecc_all" => {
            // every match: apply alone to a copy
            let rw = ecc(s["ecc"].as_str().unwrap())?;
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            let mut v = vec![];
            for r in rw.get_rewrites(&c).into_iter().take(s["max"].as_u64().unwrap_or(50) as usize) {
                let mut c2 = c.clone();
                let d = r.node_count_delta();
                let nb = c.num_operations() as i64;
                r.apply(&mut c2).map_err(ed)?;
                let na = c2.num_operations() as i64;
                v.push(json!({"hugr": to_json(c2.hugr())?, "delta": d, "ops_before": nb, "ops_after": na}));
            }
            info.push(json!({"rewrites": v}));
        }
        "strat" => {
            let rw = ecc(s["ecc"].as_str().unwrap())?;
            let v = strat_results(&rw, h, s["strat"].as_str().unwrap(), s["max"].as_u64().unwrap_or(20) as usize)?;
            info.push(json!({"results": v}));
        }
        "expr" => {
            // the expression of every copyable value of the circuit, with several boundaries
            let mut seed = s["seed"].as_u64().unwrap_or(0).wrapping_mul(2862933555777941757).wrapping_add(3037000493);
            let mut rnd = |n: u64| {
                seed ^= seed << 13;
                seed ^= seed >> 7;
                seed ^= seed << 17;
                (seed >> 20) % n.max(1)
            };
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            let scope = ResourceScope::try_from_circuit(c).map_err(es)?;
            let g = scope.hugr();
            let nodes = scope.nodes().to_vec();
            let np = |n: hugr::Node, p: usize| json!([n.index(), p]);
            let mut v = vec![];
            for &n in &nodes {
                for (p, t) in g.out_value_types(n).collect::<Vec<_>>() {
                    if !t.copyable() {
                        continue;
                    }
                    for k in 0..s["tries"].as_u64().unwrap_or(2) {
                        let (mut excl, mut bound) = (vec![], vec![]);
                        if k > 0 {
                            let (x, y) = [(5, 1000), (1000, 8), (8, 12), (1, 1000)][(k - 1) as usize % 4];
                            for &m in &nodes {
                                if m != n && x > 1 && rnd(x) == 0 {
                                    excl.push(m);
                                }
                                for (q, t) in g.in_value_types(m).collect::<Vec<_>>() {
                                    if t.copyable() && rnd(y) == 0 {
                                        bound.push((m, q));
                                    }
                                }
                            }
                            if rnd(2) == 0 {
                                excl.reverse();
                                bound.reverse();
                            }
                        }
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            CopyableExpr::try_new((n, p), bound.iter().copied().collect(), excl.iter().copied().collect(), &scope).map_err(ed).map(|e| {
                                let inout = |x: Vec<Vec<(hugr::Node, hugr::IncomingPort)>>| J::Array(x.into_iter().map(|l| J::Array(l.into_iter().map(|(n, p)| np(n, p.index())).collect())).collect());
                                let (on, op) = e.output();
                                match e.as_subgraph() {
                                    None => json!({"wire": np(on, op.index())}),
                                    Some(s) => json!({"output": np(on, op.index()), "nodes": s.nodes().iter().map(|n| n.index()).collect::<Vec<_>>(), "incoming": inout(s.incoming_ports().clone()),
                                        "outgoing": s.outgoing_ports().iter().map(|(n, p)| np(*n, p.index())).collect::<Vec<_>>(), "calls": inout(s.function_calls().clone()),
                                        "check": s.validate(g, hugr::hugr::views::sibling_subgraph::ValidationMode::CheckConvexity).err().map(ed)}),
                                }
                            })
                        }));
                        let mut o = match r {
                            Ok(Ok(o)) => o,
                            Ok(Err(e)) => json!({"err": e}),
                            Err(p) => json!({"panic": panic_msg(p)}),
                        };
                        o["of"] = np(n, p.index());
                        o["exclude"] = J::Array(excl.iter().map(|n| json!(n.index())).collect());
                        o["boundary"] = J::Array(bound.iter().map(|(n, p)| np(*n, p.index())).collect());
                        v.push(o);
                    }
                }
            }
            let mut h2 = h.clone();
            for n in h.nodes().collect::<Vec<_>>() {
                h2.set_metadata(n, "vid", n.index());
            }
            info.push(json!({"exprs": v, "hugr": to_json(&h2)?}));
        }
        "scope" => {
            // what ResourceScope says about every dataflow region of the program
            let mut seed = s["seed"].as_u64().unwrap_or(0).wrapping_mul(2862933555777941757).wrapping_add(3037000493) | 1;
            let mut rnd = |n: usize| {
                seed ^= seed << 13;
                seed ^= seed >> 7;
                seed ^= seed << 17;
                (seed >> 20) as usize % n.max(1)
            };
            let unit = |u: Option<tket::resource::CircuitUnit<hugr::Node>>| match u {
                Some(tket::resource::CircuitUnit::Resource(i)) => json!(["l", i.as_usize()]),
                Some(tket::resource::CircuitUnit::Copyable(w)) => json!(["w", w.node().index(), w.source().index()]),
                None => J::Null,
            };
            let mut regions = vec![];
            let mut g = h.clone();
            for n in h.nodes().collect::<Vec<_>>() {
                if !OpTag::DataflowParent.is_superset(g.get_optype(n).tag()) {
                    continue;
                }
                g.set_entrypoint(n);
                let r = catch_unwind(AssertUnwindSafe(|| -> Result<J, String> {
                    let c = Circuit::try_new(&g).map_err(es)?;
                    let sc = match ResourceScope::try_from_circuit(c) {
                        Ok(sc) => sc,
                        Err(e) => return Ok(json!({"parent": n.index(), "refused": es(e)})),
                    };
                    let mut nodes = vec![];
                    for &m in sc.nodes() {
                        let op = sc.hugr().get_optype(m);
                        let Some(sig) = op.dataflow_signature() else {
                            nodes.push(json!({"node": m.index()}));
                            continue;
                        };
                        let pos = sc.get_position(m).map(|p| p.to_f64(6));
                        let us = |d| sc.get_circuit_units_slice(m, d).map(|u| u.iter().map(|&u| unit(Some(u))).collect::<Vec<_>>());
                        let all = sc.get_all_resources(m);
                        let ports: Vec<J> = all
                            .iter()
                            .map(|&r| {
                                let f = |d| sc.get_port(m, r, d).map(|p| p.index());
                                json!([r.as_usize(), f(hugr::Direction::Incoming), f(hugr::Direction::Outgoing), sc.is_resource_start(m, r),
                                    sc.resource_path_iter(r, m, hugr::Direction::Outgoing).map(|k| k.index()).collect::<Vec<_>>(),
                                    sc.resource_path_iter(r, m, hugr::Direction::Incoming).map(|k| k.index()).collect::<Vec<_>>()])
                            })
                            .collect();
                        nodes.push(json!({"node": m.index(), "pos": pos, "in": us(hugr::Direction::Incoming), "out": us(hugr::Direction::Outgoing), "ports": ports,
                            "uin": sig.input_ports().map(|p| unit(sc.get_circuit_unit(m, p))).collect::<Vec<_>>(),
                            "rin": sc.get_resources(m, hugr::Direction::Incoming).map(|r| r.as_usize()).collect::<Vec<_>>(),
                            "rout": sc.get_resources(m, hugr::Direction::Outgoing).map(|r| r.as_usize()).collect::<Vec<_>>(),
                            "win": sc.get_copyable_wires(m, hugr::Direction::Incoming).map(|w| json!([w.node().index(), w.source().index()])).collect::<Vec<_>>(),
                            "wout": sc.get_copyable_wires(m, hugr::Direction::Outgoing).map(|w| json!([w.node().index(), w.source().index()])).collect::<Vec<_>>()}));
                    }
                    let mut reach = vec![];
                    let outs: Vec<_> = sc.nodes().iter().flat_map(|&m| g.out_value_types(m).map(move |(p, _)| (m, p))).collect();
                    let ins: Vec<_> = sc.nodes().iter().flat_map(|&m| g.in_value_types(m).map(move |(p, _)| (m, p))).collect();
                    for _ in 0..s["tries"].as_u64().unwrap_or(12) {
                        if outs.is_empty() || ins.is_empty() {
                            break;
                        }
                        let st: Vec<_> = (0..1 + rnd(2)).map(|_| outs[rnd(outs.len())]).collect();
                        let en: Vec<_> = (0..1 + rnd(2)).map(|_| ins[rnd(ins.len())]).collect();
                        let b = sc.any_reachable_from(st.iter().copied(), en.iter().copied());
                        let np = |v: &[(usize, usize)]| json!(v);
                        reach.push(json!([np(&st.iter().map(|(m, p)| (m.index(), p.index())).collect::<Vec<_>>()), np(&en.iter().map(|(m, p)| (m.index(), p.index())).collect::<Vec<_>>()), b]));
                    }
                    Ok(json!({"parent": n.index(), "nodes": nodes, "reach": reach, "empty": sc.is_empty(), "resources": sc.resources_iter().map(|r| r.as_usize()).collect::<Vec<_>>()}))
                }));
                regions.push(r.unwrap_or_else(|p| Ok(json!({"parent": n.index(), "panic": panic_msg(p)})))?);
            }
            g.set_entrypoint(h.entrypoint());
            for n in h.nodes().collect::<Vec<_>>() {
                g.set_metadata(n, "vid", n.index());
            }
            info.push(json!({"regions": regions, "hugr": to_json(&g)?}));
        }
        "commands" => {
            // what Circuit::commands says about every dataflow region of the program
            let unit = |u: hugr::CircuitUnit| match u {
                hugr::CircuitUnit::Linear(i) => json!(["l", i]),
                hugr::CircuitUnit::Wire(w) => json!(["w", w.node().index(), w.source().index()]),
            };
            let mut regions = vec![];
            let entry = h.entrypoint();
            let all: Vec<_> = h.nodes().collect();
            let mut g = h.clone();
            for n in all {
                if !OpTag::DataflowParent.is_superset(g.get_optype(n).tag()) {
                    continue;
                }
                g.set_entrypoint(n);
                let c = Circuit::try_new(&g).map_err(es)?;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let cmds: Vec<J> = c
                        .commands()
                        .map(|c| {
                            json!({"node": c.node().index(),
                                "in": c.inputs().map(|(u, p, _)| json!([unit(u), p.index()])).collect::<Vec<_>>(),
                                "out": c.outputs().map(|(u, p, _)| json!([unit(u), p.index()])).collect::<Vec<_>>(),
                                "lin": c.linear_inputs().map(|(u, p, _)| json!([u.index(), p.index()])).collect::<Vec<_>>(),
                                "lout": c.linear_outputs().map(|(u, p, _)| json!([u.index(), p.index()])).collect::<Vec<_>>(),
                                "qin": c.input_qubits().map(|(u, p, _)| json!([u.index(), p.index()])).collect::<Vec<_>>(),
                                "qout": c.output_qubits().map(|(u, p, _)| json!([u.index(), p.index()])).collect::<Vec<_>>(),
                                "inw": c.input_wires().into_iter().map(|(u, w)| json!([unit(u), w.node().index(), w.source().index()])).collect::<Vec<_>>(),
                                "outw": c.output_wires().map(|(u, w)| json!([unit(u), w.node().index(), w.source().index()])).collect::<Vec<_>>(),
                            })
                        })
                        .collect();
                    json!({"parent": n.index(), "input": c.input_node().index(), "output": c.output_node().index(), "commands": cmds,
                        "units": c.units().map(|(u, p, _)| json!([unit(u), p.index()])).collect::<Vec<_>>(),
                        "qubits": c.qubits().map(|(u, p, _)| json!([u.index(), p.index()])).collect::<Vec<_>>(),
                        "operations": c.operations().map(|c| c.node().index()).collect::<Vec<_>>(),
                        "qubit_count": c.qubit_count(), "num_operations": c.num_operations()})
                }));
                regions.push(r.unwrap_or_else(|p| json!({"parent": n.index(), "panic": panic_msg(p)})));
            }
            g.set_entrypoint(entry);
            for n in h.nodes().collect::<Vec<_>>() {
                g.set_metadata(n, "vid", n.index());
            }
            info.push(json!({"regions": regions, "hugr": to_json(&g)?}));
        }
        "store" => {
            // saved and loaded again
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            let back = match s["format"].as_str().unwrap_or("text") {
                "text" => Circuit::load_str(c.store_str(hugr::envelope::EnvelopeConfig::text()).map_err(es)?, Some(&REG)).map_err(es)?,
                f => {
                    let mut cfg = hugr::envelope::EnvelopeConfig::binary();
                    if f == "plain" {
                        cfg.zstd = None;
                    }
                    let mut v = vec![];
                    c.store(&mut v, cfg).map_err(es)?;
                    Circuit::load(&v[..], Some(&REG)).map_err(es)?
                }
            };
            *h = back.into_hugr();
        }
        "load_function" => {
            // saved, and the circuit of one of its functions loaded
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            let name = s["name"].as_str().unwrap();
            let back = if b(s, "text", true) {
                Circuit::load_function_str(c.store_str(hugr::envelope::EnvelopeConfig::text()).map_err(es)?, name).map_err(es)?
            } else {
                let mut v = vec![];
                c.store(&mut v, hugr::envelope::EnvelopeConfig::binary()).map_err(es)?;
                Circuit::load_function(&v[..], name).map_err(es)?
            };
            *h = back.into_hugr();
        }
        "extract_dfg" => {
            *h = Circuit::try_new(h.clone()).map_err(es)?.extract_dfg().map_err(ed)?.into_hugr();
        }
        "hash" => {
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            info.push(json!({"hash": c.circuit_hash(c.parent()).map_err(es)?.to_string()}));
        }
        "pytket_encode" => {
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            let ser = SerialCircuit::encode(&c, enc_opts(b(s, "qsystem", true), false)).map_err(es)?;
            info.push(json!({"pytket": serde_json::to_value(&ser).map_err(es)?}));
        }
        "pytket_enc_dec" => {
            // SerialCircuit::encode followed by decode (via serde), signature kept
            let q = b(s, "qsystem", true);
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            let ser = SerialCircuit::encode(&c, enc_opts(q, b(s, "subs", false))).map_err(es)?;
            let j = serde_json::to_value(&ser).map_err(es)?;
            info.push(json!({"pytket": j}));
            let ser2 = serial(&j)?;
            let mut o = DecodeOptions::new().with_config(dec_cfg(q)).with_extensions(REG.clone());
            if b(s, "sig", true) {
                o = o.with_signature(c.circuit_signature().into_owned());
            }
            *h = ser2.decode(o).map_err(es)?.into_hugr();
        }
        "pytket_standalone" => {
            let q = b(s, "qsystem", true);
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            let sig = c.circuit_signature().into_owned();
            let e = EncodedCircuit::new_standalone(&c, enc_opts(q, b(s, "subs", false))).map_err(es)?;
            let e = if b(s, "json", true) { e } else { e };
            let cs: Vec<J> = e.iter().map(|(_, c)| serde_json::to_value(c).unwrap()).collect();
            info.push(json!({"pytket": cs}));
            let parent = c.parent();
            *h = {
                let mut out = Hugr::new();
                let f = e
                    .reassemble(
                        parent,
                        Some("main".to_string()),
                        DecodeOptions::new()
                            .with_config(dec_cfg(q))
                            .with_signature(sig)
                            .with_extensions(REG.clone()),
                    )
                    .map_err(es)?;
                let _ = &mut out;
                f
            };
        }
        "pytket_inplace" => {
            let q = b(s, "qsystem", true);
            let mut c = Circuit::try_new(h.clone()).map_err(es)?;
            let mut e = EncodedCircuit::new(&c, enc_opts(q, b(s, "subs", true))).map_err(es)?;
            if let Some(seed) = s["shuffle"].as_u64() {
                // another order of the commands: those which share a qubit or a bit keep theirs
                for (_, sc) in e.iter_mut() {
                    shuffle(sc, seed);
                }
            }
            let cs: Vec<J> = e.iter().map(|(_, c)| serde_json::to_value(c).unwrap()).collect();
            info.push(json!({"pytket": cs}));
            e.reassemble_inplace(c.hugr_mut(), Some(Arc::new(dec_cfg(q)))).map_err(es)?;
            *h = c.into_hugr();
        }
        "lower_to_pytket" => {
            let c = Circuit::try_new(h.clone()).map_err(es)?;
            *h = tket::passes::lower_to_pytket(&c).map_err(ed)?.into_hugr();
        }
        "mutate" => {}
        o => return Err(format!("unknown step {o}")),
    }
    Ok(())
}

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Remember where the last panic of this thread came from: location and the library functions on the stack.
pub fn note_panic(i: &std::panic::PanicHookInfo) {
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let mut fs: Vec<&str> = vec![];
    for l in bt.lines() {
        let l = l.trim();
        if let Some((_, f)) = l.split_once(": ") {
            let g = f.trim_start_matches('<');
            if (g.starts_with("hugr_passes::") || g.starts_with("hugr_llvm::") || g.starts_with("tket::") || g.starts_with("tket_qsystem::")) && fs.len() < 4 {
                fs.push(&f[..f.len().min(120)]);
            }
        }
    }
    let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
    LAST.with(|x| *x.borrow_mut() = format!(" [at {loc} in {}]", fs.join(" < ")));
}

fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    let m = panic_text(p);
    let l = LAST.with(|x| std::mem::take(&mut *x.borrow_mut()));
    m + &l
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

pub fn run_request(req: &J) -> J {
    let loaded = catch_unwind(AssertUnwindSafe(|| -> R<Hugr> {
        if !req["hugr"].is_null() {
            from_json(&req["hugr"])
        } else if let Some(p) = req["path"].as_str() {
            let by = std::fs::read(p).map_err(es)?;
            let pk = hugr::package::Package::load(&by[..], Some(&REG)).map_err(es)?;
            pk.modules.into_iter().next().ok_or("empty package".to_string())
        } else if !req["pytket"].is_null() {
            let q = b(req, "qsystem", true);
            let ser = serial(&req["pytket"])?;
            let mut o = DecodeOptions::new().with_config(dec_cfg(q)).with_extensions(REG.clone());
            if let Some(l) = req["layout"].as_array() {
                let row = |k: usize| -> Vec<hugr::types::Type> {
                    l[k].as_str()
                        .unwrap()
                        .chars()
                        .map(|c| match c {
                            'q' => hugr::extension::prelude::qb_t(),
                            'b' => hugr::extension::prelude::bool_t(),
                            't' => tket::extension::bool::bool_type(),
                            'r' => tket::extension::rotation::rotation_type(),
                            _ => hugr::std_extensions::arithmetic::float_types::float64_type(),
                        })
                        .collect()
                };
                o = o.with_signature(hugr::types::Signature::new(row(0), row(1)));
            }
            if let Some(l) = req["names"].as_array() {
                o = o.with_input_params(l.iter().map(|x| x.as_str().unwrap().to_string()));
            }
            Ok(ser.decode(o).map_err(es)?.into_hugr())
        } else {
            Err("no input".into())
        }
    }));
    let mut h = match loaded {
        Ok(Ok(h)) => h,
        Ok(Err(e)) => return json!({"load_err": e}),
        Err(p) => return json!({"load_panic": panic_msg(p)}),
    };
    if let Some(n) = req["entry"].as_str() {
        match cur_func(&h, n) {
            Some(n) => h.set_entrypoint(n),
            None => return json!({"load_err": "no entry"}),
        }
    }
    let valid = h.validate().map_err(es);
    let mut res = json!({"before": to_json(&h).unwrap_or(J::Null), "valid": valid.as_ref().err()});
    if valid.is_err() && !b(req, "allow_invalid", false) {
        return res;
    }
    let mut outs = serde_json::Map::new();
    if let Some(pipes) = req["pipes"].as_object() {
        for (name, steps) in pipes {
            let mut cur = h.clone();
            let mut info = vec![];
            let mut r = json!({});
            for (i, s) in steps.as_array().unwrap().iter().enumerate() {
                let x = catch_unwind(AssertUnwindSafe(|| step(&mut cur, s, &mut info)));
                match x {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => {
                        r = json!({"err": e, "step": i});
                        break;
                    }
                    Err(p) => {
                        r = json!({"panic": panic_msg(p), "step": i});
                        break;
                    }
                }
            }
            if r.get("err").is_none() && r.get("panic").is_none() {
                let v = catch_unwind(AssertUnwindSafe(|| {
                    (cur.validate().map_err(es), to_json(&cur))
                }));
                r = match v {
                    Ok((v, Ok(j))) => json!({"ok": j, "invalid": v.err()}),
                    Ok((_, Err(e))) => json!({"err": format!("store: {e}")}),
                    Err(p) => json!({"panic": format!("validate/store: {}", panic_msg(p))}),
                };
            }
            r["info"] = J::Array(info);
            outs.insert(name.clone(), r);
        }
    }
    res["out"] = J::Object(outs);
    res
}

/// Every operation of the registry, with its (polymorphic) signature where it is declared.
pub fn sigs() -> J {
    let mut m = serde_json::Map::new();
    for e in REG.iter() {
        let j = serde_json::to_value(e.as_ref()).unwrap();
        let mut ops = serde_json::Map::new();
        if let Some(o) = j["operations"].as_object() {
            for (k, v) in o {
                ops.insert(k.clone(), v["signature"].clone());
            }
        }
        m.insert(e.name().to_string(), json!({"ops": ops, "types": j["types"]}));
    }
    J::Object(m)
}

/// Another order of the commands of a pytket circuit: those which share a qubit or a bit keep theirs.
///
/// A command whose angles mention a variable stays after the opaque computations that were before it: one of them may define the variable.
fn shuffle(sc: &mut SerialCircuit, seed: u64) {
    let vars = |c: &tket_json_rs::circuit_json::Command<String>| {
        let ps = c.op.params.iter().flatten();
        ps.clone().any(|p| p.chars().any(|c| c.is_ascii_alphabetic()))
    };
    let opaque = |c: &tket_json_rs::circuit_json::Command<String>| c.op.op_type == tket_json_rs::OpType::Barrier;
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut left = std::mem::take(&mut sc.commands);
    while !left.is_empty() {
        let ready: Vec<usize> = (0..left.len())
            .filter(|&i| left[..i].iter().all(|c| c.args.iter().all(|a| !left[i].args.contains(a)) && !(opaque(c) && vars(&left[i]))))
            .collect();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        sc.commands.push(left.remove(ready[(x >> 20) as usize % ready.len()]));
    }
}
