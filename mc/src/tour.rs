//! Walks the real system along every edge of a finite model graph.
//!
//! The model is explored explicitly; the implementation follows, one long walk
//! that takes every (state, action) edge of its share at least once, taking
//! the shortest model path whenever the current state has none left.
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;

use serde_json::json;

use crate::seq::{h, Acc};

pub trait Graph {
    type S: Clone + Ord + Debug + std::hash::Hash;
    type A: Clone + Debug + std::hash::Hash;
    type Sys;
    fn start(&self) -> Self::S;
    fn actions(&self, s: &Self::S) -> Vec<Self::A>;
    fn next(&self, s: &Self::S, a: &Self::A) -> Self::S;
    fn fresh(&self) -> Result<Self::Sys, String>;
    /// Performs `a` on the system, which the model says is in `s` and goes to `t`.
    fn exec(&self, sys: &mut Self::Sys, s: &Self::S, a: &Self::A, t: &Self::S, acc: &mut Acc) -> Result<(), String>;
    /// Disposes of a system.
    fn done(&self, _sys: Self::Sys) {}
    /// How many actions before the system is replaced by a fresh one.
    fn life(&self) -> usize {
        usize::MAX
    }
}

struct Node<A> {
    actions: Vec<A>,
    to: Vec<usize>,
    mine: Vec<bool>,
}

/// Takes share `part` of `parts` of all edges.
pub fn cover<G: Graph>(g: &G, part: u64, parts: u64, acc: &mut Acc) {
    // the model graph
    let mut ids: BTreeMap<G::S, usize> = BTreeMap::new();
    let mut states: Vec<G::S> = vec![];
    let mut nodes: Vec<Node<G::A>> = vec![];
    let s0 = g.start();
    ids.insert(s0.clone(), 0);
    states.push(s0);
    let mut i = 0;
    let mut left = 0u64;
    while i < states.len() {
        let s = states[i].clone();
        let actions = g.actions(&s);
        let mut n = Node { to: vec![], mine: vec![], actions: vec![] };
        for a in actions {
            let t = g.next(&s, &a);
            let len = states.len();
            let id = *ids.entry(t.clone()).or_insert(len);
            if id == len {
                states.push(t);
            }
            let mine = h(&(&s, &a)) % parts == part;
            left += u64::from(mine);
            n.to.push(id);
            n.mine.push(mine);
            n.actions.push(a);
        }
        nodes.push(n);
        i += 1;
    }
    if part == 0 {
        acc.count("model_states", states.len() as u64);
    }
    acc.count("model_edges", left);
    let mut sys: Option<G::Sys> = None;
    let mut at = 0usize;
    let mut age = 0usize;
    let mut hist: Vec<String> = vec![];
    let mut plan: VecDeque<usize> = VecDeque::new();
    let mut failures = 0;
    while left > 0 {
        if sys.is_none() {
            match g.fresh() {
                Ok(s) => sys = Some(s),
                Err(e) => {
                    acc.bad(format!("fresh system: {e}"), json!({}));
                    return;
                }
            }
            at = 0;
            age = 0;
            hist.clear();
            plan.clear();
        }
        if plan.is_empty() {
            match path(&nodes, at) {
                Some(p) => plan = p,
                None => {
                    // what is left can only be reached from the start
                    if at == 0 && age == 0 {
                        acc.count("model_edges_unreachable", left);
                        break;
                    }
                    g.done(sys.take().unwrap());
                    continue;
                }
            }
        }
        let k = plan.pop_front().unwrap();
        let (a, to) = (nodes[at].actions[k].clone(), nodes[at].to[k]);
        if nodes[at].mine[k] {
            nodes[at].mine[k] = false;
            left -= 1;
        }
        if hist.len() >= 12 {
            hist.remove(0);
        }
        hist.push(format!("{a:?}"));
        acc.at(&format!("{hist:?}"));
        acc.count("transitions", 1);
        age += 1;
        if let Err(e) = g.exec(sys.as_mut().unwrap(), &states[at], &a, &states[to], acc) {
            // the shortest history that shows it, when the model path does
            let short = retry(g, &nodes, &states, at, k);
            let (trace, e) = match short {
                Some((p, e)) => (p, e),
                None => (hist.clone(), e),
            };
            acc.bad(format!("{}: {e}", trace.join(", ")), json!({"history": trace, "state": format!("{:?}", states[at])}));
            failures += 1;
            if failures > 6 {
                return;
            }
            g.done(sys.take().unwrap());
            continue;
        }
        if age % 500 == 1 {
            acc.sample(json!({"state": format!("{:?}", states[at]), "action": format!("{a:?}")}));
        }
        at = to;
        if age >= g.life() {
            g.done(sys.take().unwrap());
        }
    }
    if let Some(s) = sys {
        g.done(s);
    }
}

fn bfs<A>(nodes: &[Node<A>], from: usize, goal: impl Fn(usize, usize) -> bool) -> Option<VecDeque<usize>> {
    let mut prev: Vec<(usize, usize)> = vec![(usize::MAX, 0); nodes.len()];
    prev[from] = (from, 0);
    let mut q = VecDeque::from([from]);
    while let Some(s) = q.pop_front() {
        for k in 0..nodes[s].to.len() {
            if goal(s, k) {
                let mut p = VecDeque::from([k]);
                let mut x = s;
                while x != from {
                    let (y, j) = prev[x];
                    p.push_front(j);
                    x = y;
                }
                return Some(p);
            }
            let t = nodes[s].to[k];
            if prev[t].0 == usize::MAX {
                prev[t] = (s, k);
                q.push_back(t);
            }
        }
    }
    None
}
fn path<A>(nodes: &[Node<A>], from: usize) -> Option<VecDeque<usize>> {
    bfs(nodes, from, |s, k| nodes[s].mine[k])
}
fn retry<G: Graph>(g: &G, nodes: &[Node<G::A>], states: &[G::S], at: usize, k: usize) -> Option<(Vec<String>, String)> {
    let p = bfs(nodes, 0, |s, j| s == at && j == k)?;
    let mut sys = g.fresh().ok()?;
    let mut x = 0;
    let mut out = vec![];
    let mut acc = Acc::default();
    for j in p {
        let a = &nodes[x].actions[j];
        let t = nodes[x].to[j];
        out.push(format!("{a:?}"));
        if let Err(e) = g.exec(&mut sys, &states[x], a, &states[t], &mut acc) {
            g.done(sys);
            return Some((out, e));
        }
        x = t;
    }
    g.done(sys);
    None
}
