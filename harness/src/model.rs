//! Finite interpretations ("worlds"): index domains, a trace, values of inputs/cells, and the
//! reference semantics of the input language over them.
use crate::proto::*;
use crate::src::{mix, Src};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Val {
    B(bool),
    /// unknown truth value
    U,
    I(u8, u8),
    /// step value: 0 = the undefined step, k>0 = k-th element of the trace
    S(u8),
    /// message value or name value (index in the arena)
    M(u32),
    /// symbolic term (index in the term arena; symbolic realm only)
    T(u32),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Node {
    Name(usize, Vec<u8>),
    App(usize, Vec<Val>),
    Empty,
    Atk(u32),
    /// value of an unknown/undefined symbol, tagged
    Opaque(String, Vec<Val>),
}
#[derive(Default, Clone)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, u32>,
    names_in: Vec<HashSet<u32>>,
}
impl Arena {
    pub fn mk(&mut self, n: Node) -> Val {
        if let Some(&i) = self.map.get(&n) {
            return Val::M(i);
        }
        let i = self.nodes.len() as u32;
        let mut ns = HashSet::new();
        match &n {
            Node::Name(..) => {
                ns.insert(i);
            }
            Node::App(_, a) | Node::Opaque(_, a) => {
                for v in a {
                    if let Val::M(j) = v {
                        ns.extend(self.names_in[*j as usize].iter().copied());
                    }
                }
            }
            _ => {}
        }
        self.names_in.push(ns);
        self.nodes.push(n.clone());
        self.map.insert(n, i);
        Val::M(i)
    }
    pub fn names_in(&self, m: u32) -> &HashSet<u32> {
        &self.names_in[m as usize]
    }
    pub fn get(&self, v: Val) -> Option<&Node> {
        if let Val::M(i) = v { Some(&self.nodes[i as usize]) } else { None }
    }
    pub fn subvalues(&self, v: Val, out: &mut HashSet<Val>) {
        if let Val::M(i) = v {
            if out.insert(v) {
                if let Node::App(_, a) | Node::Opaque(_, a) = &self.nodes[i as usize] {
                    for x in a.clone() {
                        self.subvalues(x, out);
                    }
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub p: std::sync::Arc<Proto>,
    pub dom: Vec<u8>,
    /// number of step values (undef + trace length)
    pub nsteps: usize,
    pub trace: Vec<Option<(usize, Vec<u8>)>>, // index = step value; [0]=None (undef), [1]=None (init)
    pub inst: HashMap<(usize, Vec<u8>), u8>,
    pub happens: Vec<bool>,
    pub leq: Vec<Vec<bool>>,
    pub lt: Vec<Vec<bool>>,
    pub gt: Vec<Vec<bool>>,
    pub pred: Vec<u8>,
    pub init: u8,
    pub input: Vec<Val>,
    pub cells: Vec<HashMap<(usize, Vec<Val>), Val>>,
    pub msg: Vec<Val>,
    pub cond: Vec<bool>,
    pub exec: Vec<bool>,
    pub arena: Arena,
    pub pred_seed: u64,
    /// domain used for Message quantifiers in the reference semantics
    pub universe: Vec<Val>,
    pub ambiguous_find: bool,
    /// steps up to this one are already executed; reading a later one makes the world unusable
    pub ready: usize,
    pub ready_cells: usize,
    /// verifications and decryptions computed by the protocol, when switched on
    pub log: Option<HashSet<(usize, Vec<Val>, Val)>>,
    pub ready_msgs: usize,
    pub too_early: bool,
    /// forged facts: verify(s,m,k) triples that hold although s is no honest mac/signature (bogus worlds only)
    pub forged_verify: HashSet<(usize, Vec<Val>)>,
    pub forged_dec: HashMap<(usize, Vec<Val>), Val>,
    pub override_fun: HashMap<(usize, Vec<Val>), Val>,
    pub opaque_consts: HashMap<String, Val>,
}
#[derive(Clone, Default)]
pub struct Env {
    pub vars: HashMap<usize, Val>,
    pub self_step: Option<(usize, Vec<u8>)>,
    pub depth: usize,
}

pub fn cmp_idx(n: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for &k in n {
        let mut nx = vec![];
        for p in &out {
            for i in 0..k {
                let mut q: Vec<u8> = p.clone();
                q.push(i);
                nx.push(q);
            }
        }
        out = nx;
    }
    out
}

impl World {
    /// A world with the canonical (linear) order over `trace` instances.
    pub fn linear(p: std::sync::Arc<Proto>, dom: Vec<u8>, insts: &[(usize, Vec<u8>)], pred_seed: u64) -> World {
        let n = insts.len() + 2;
        let mut trace = vec![None, None];
        let mut inst = HashMap::new();
        for (k, i) in insts.iter().enumerate() {
            trace.push(Some(i.clone()));
            inst.insert(i.clone(), (k + 2) as u8);
        }
        let mut arena = Arena::default();
        let empty = arena.mk(Node::Empty);
        let mut w = World {
            p,
            dom,
            nsteps: n,
            trace,
            inst,
            happens: (0..n).map(|i| i > 0).collect(),
            leq: (0..n).map(|i| (0..n).map(|j| i > 0 && j > 0 && i <= j).collect()).collect(),
            lt: (0..n).map(|i| (0..n).map(|j| i > 0 && j > 0 && i < j).collect()).collect(),
            gt: (0..n).map(|i| (0..n).map(|j| i > 0 && j > 0 && i > j).collect()).collect(),
            pred: (0..n).map(|i| if i >= 2 { (i - 1) as u8 } else { 0 }).collect(),
            init: 1,
            input: vec![empty; n],
            cells: vec![HashMap::new(); n],
            msg: vec![empty; n],
            cond: vec![true; n],
            exec: vec![true; n],
            arena,
            pred_seed,
            universe: vec![],
            ambiguous_find: false,
            ready: usize::MAX,
            ready_cells: usize::MAX,
            log: None,
            ready_msgs: usize::MAX,
            too_early: false,
            forged_verify: HashSet::new(),
            forged_dec: HashMap::new(),
            override_fun: HashMap::new(),
            opaque_consts: HashMap::new(),
        };
        // initial cell contents
        let cells = w.p.cells.clone();
        for (ci, c) in cells.iter().enumerate() {
            for a in w.tuples(&c.args) {
                let v = w.arena.mk(Node::Opaque(format!("init$cell{ci}"), a.clone()));
                for s in 0..n {
                    w.cells[s].insert((ci, a.clone()), v);
                }
            }
        }
        w
    }
    pub fn sort_dom(&self, s: Sort) -> Vec<Val> {
        match s {
            Sort::Idx(i) => (0..self.dom[i]).map(|k| Val::I(i as u8, k)).collect(),
            Sort::Step => (0..self.nsteps).map(|k| Val::S(k as u8)).collect(),
            Sort::Bool => vec![Val::B(false), Val::B(true)],
            Sort::Msg => self.universe.clone(),
            Sort::Name => vec![],
        }
    }
    pub fn tuples(&self, sorts: &[Sort]) -> Vec<Vec<Val>> {
        let mut out = vec![vec![]];
        for s in sorts {
            let d = self.sort_dom(*s);
            let mut nx = Vec::with_capacity(out.len() * d.len());
            for p in &out {
                for v in &d {
                    let mut q: Vec<Val> = p.clone();
                    q.push(*v);
                    nx.push(q);
                }
            }
            out = nx;
        }
        out
    }
    pub fn all_names(&mut self) -> Vec<Val> {
        let p = self.p.clone();
        let mut out = vec![];
        for (fi, f) in p.funs.iter().enumerate() {
            if f.sem == Sem::Name {
                for t in self.tuples(&f.args) {
                    out.push(self.apply(fi, &t));
                }
            }
        }
        out
    }
    pub fn step_val(&self, s: usize, args: &[Val]) -> u8 {
        let a: Vec<u8> = args.iter().map(|v| if let Val::I(_, k) = v { *k } else { 0 }).collect();
        self.inst.get(&(s, a)).copied().unwrap_or(0)
    }
    /// Value of a user function on values (normalising).
    pub fn apply(&mut self, f: usize, args: &[Val]) -> Val {
        let v = self.apply_(f, args);
        if self.log.is_some() && matches!(self.p.funs[f].sem, Sem::Verify(_) | Sem::VerifySig(..) | Sem::Dec(..) | Sem::Mac) {
            self.log.as_mut().unwrap().insert((f, args.to_vec(), v));
        }
        v
    }
    /// number of logged verifications and decryptions that went through
    pub fn logged_successes(&mut self) -> usize {
        let Some(l) = self.log.clone() else { return 0 };
        let mut n = 0;
        for (f, _, v) in l {
            n += match self.p.funs[f].sem {
                Sem::Dec(_, fl) => v != self.apply_(fl, &[]),
                Sem::Mac => false,
                _ => v == Val::B(true),
            } as usize;
        }
        n
    }
    fn apply_(&mut self, f: usize, args: &[Val]) -> Val {
        if !self.override_fun.is_empty() {
            if let Some(v) = self.override_fun.get(&(f, args.to_vec())) {
                return *v;
            }
        }
        let p = self.p.clone();
        let fun = &p.funs[f];
        match fun.sem {
            Sem::Name => self.arena.mk(Node::Name(f, args.iter().map(|v| if let Val::I(_, k) = v { *k } else { 0 }).collect())),
            Sem::Pred => {
                let mut h = mix(self.pred_seed, f as u64);
                for v in args {
                    h = mix(h, match v {
                        Val::B(b) => *b as u64,
                        Val::U => 3,
                        Val::I(a, b) => 100 + *a as u64 * 16 + *b as u64,
                        Val::S(k) => 1000 + *k as u64,
                        Val::M(i) => 10_000 + self.val_hash(*i),
                        Val::T(i) => 77 + *i as u64,
                    });
                }
                Val::B(h & 1 == 1)
            }
            Sem::Free | Sem::Pair | Sem::Mac | Sem::Sign | Sem::Pk | Sem::Enc => {
                if fun.out == Sort::Bool {
                    return Val::B(false);
                }
                self.arena.mk(Node::App(f, args.to_vec()))
            }
            Sem::Fst(pr) | Sem::Snd(pr) => {
                if let Some(Node::App(g, a)) = self.arena.get(args[0]) {
                    if *g == pr {
                        return if matches!(fun.sem, Sem::Fst(_)) { a[0] } else { a[1] };
                    }
                }
                self.arena.mk(Node::App(f, args.to_vec()))
            }
            Sem::Verify(mac) => {
                let ok = matches!(self.arena.get(args[0]), Some(Node::App(g, a)) if *g == mac && a[0] == args[1] && a[1] == args[2]);
                Val::B(ok || self.forged_verify.contains(&(f, args.to_vec())))
            }
            Sem::VerifySig(sign, pk) => {
                let mut ok = false;
                if let (Some(Node::App(g, a)), Some(Node::App(h, b))) = (self.arena.get(args[0]), self.arena.get(args[2])) {
                    ok = *g == sign && *h == pk && a[0] == args[1] && a[1] == b[0];
                }
                Val::B(ok || self.forged_verify.contains(&(f, args.to_vec())))
            }
            Sem::Dec(enc, fail) => {
                if let Some(v) = self.forged_dec.get(&(f, args.to_vec())) {
                    return *v;
                }
                if let Some(Node::App(g, a)) = self.arena.get(args[0]) {
                    if *g == enc && a[2] == args[1] {
                        return a[0];
                    }
                }
                self.apply(fail, &[])
            }
        }
    }
    fn val_hash(&self, i: u32) -> u64 {
        match &self.arena.nodes[i as usize] {
            Node::Name(f, a) => a.iter().fold(mix(1, *f as u64), |h, x| mix(h, *x as u64)),
            Node::Empty => 17,
            Node::Atk(k) => mix(19, *k as u64),
            Node::App(f, a) => a.iter().fold(mix(2, *f as u64), |h, v| mix(h, match v {
                Val::M(j) => self.val_hash(*j),
                Val::I(x, y) => 1000 + *x as u64 * 16 + *y as u64,
                _ => 5,
            })),
            Node::Opaque(s, a) => a.iter().fold(crate::src::hash_str(s), |h, v| mix(h, match v {
                Val::M(j) => self.val_hash(*j),
                Val::I(x, y) => 1000 + *x as u64 * 16 + *y as u64,
                _ => 5,
            })),
        }
    }
    pub fn b(&mut self, t: &Term, e: &mut Env) -> bool {
        matches!(self.eval(t, e), Val::B(true))
    }
    fn with<R>(&mut self, e: &mut Env, vs: &[Var], vals: &[Val], f: impl FnOnce(&mut Self, &mut Env) -> R) -> R {
        let old: Vec<Option<Val>> = vs.iter().zip(vals).map(|(v, x)| e.vars.insert(v.id, *x)).collect();
        let r = f(self, e);
        for (v, o) in vs.iter().zip(old) {
            match o {
                Some(o) => {
                    e.vars.insert(v.id, o);
                }
                None => {
                    e.vars.remove(&v.id);
                }
            }
        }
        r
    }
    fn sv(&mut self, t: &Term, e: &mut Env) -> u8 {
        match self.eval(t, e) {
            Val::S(k) => k,
            v => panic!("not a step: {v:?}"),
        }
    }
    pub fn eval(&mut self, t: &Term, e: &mut Env) -> Val {
        let p = self.p.clone();
        match t {
            Term::Var(i) => *e.vars.get(i).unwrap_or_else(|| panic!("unbound var {} ({i})", p.var_names[*i])),
            Term::Fun(f, a) => {
                let v: Vec<Val> = a.iter().map(|x| self.eval(x, e)).collect();
                self.apply(*f, &v)
            }
            Term::True => Val::B(true),
            Term::False => Val::B(false),
            Term::Empty => self.arena.mk(Node::Empty),
            Term::Not(x) => Val::B(!self.b(x, e)),
            Term::Op(o, v) => match o {
                Op::And => Val::B(v.iter().map(|x| self.b(x, e)).fold(true, |a, b| a && b)),
                Op::Or => Val::B(v.iter().map(|x| self.b(x, e)).fold(false, |a, b| a || b)),
                Op::Imp => {
                    let a = self.b(&v[0], e);
                    let b = self.b(&v[1], e);
                    Val::B(!a || b)
                }
                Op::Iff | Op::Eq => {
                    let xs: Vec<Val> = v.iter().map(|x| self.eval(x, e)).collect();
                    Val::B(xs.windows(2).all(|w| w[0] == w[1]))
                }
                Op::Neq => {
                    let a = self.eval(&v[0], e);
                    let b = self.eval(&v[1], e);
                    Val::B(a != b)
                }
            },
            Term::If(b) => {
                if self.b(&b.0, e) { self.eval(&b.1, e) } else { self.eval(&b.2, e) }
            }
            Term::Find(vs, b) => {
                let sorts: Vec<Sort> = vs.iter().map(|v| v.sort).collect();
                let mut first = None;
                let mut amb = false;
                for tup in self.tuples(&sorts) {
                    let hit = self.with(e, vs, &tup, |w, e| if w.b(&b.0, e) { Some(w.eval(&b.1, e)) } else { None });
                    if let Some(v) = hit {
                        match first {
                            None => first = Some(v),
                            Some(f) if f != v => amb = true,
                            _ => {}
                        }
                    }
                }
                if amb {
                    self.ambiguous_find = true;
                }
                match first {
                    Some(v) => v,
                    None => self.eval(&b.2, e),
                }
            }
            Term::Let(v, b) => {
                let x = self.eval(&b.0, e);
                self.with(e, std::slice::from_ref(v), &[x], |w, e| w.eval(&b.1, e))
            }
            Term::Q(fa, vs, b) => {
                let sorts: Vec<Sort> = vs.iter().map(|v| v.sort).collect();
                for tup in self.tuples(&sorts) {
                    let r = self.with(e, vs, &tup, |w, e| w.b(b, e));
                    if r != *fa {
                        return Val::B(!fa);
                    }
                }
                Val::B(*fa)
            }
            Term::Macro(m, a) => {
                let vals: Vec<Val> = a.iter().map(|x| self.eval(x, e)).collect();
                let mac = &p.macros[*m];
                let mut e2 = Env::default();
                for (v, x) in mac.params.iter().zip(vals) {
                    e2.vars.insert(v.id, x);
                }
                self.eval(&mac.body, &mut e2)
            }
            Term::MsgM(s, a) | Term::CondM(s, a) => {
                let vals: Vec<Val> = a.iter().map(|x| self.eval(x, e)).collect();
                let is_msg = matches!(t, Term::MsgM(..));
                self.eval_step_part(*s, &vals, is_msg)
            }
            Term::Step(s, a) => {
                let vals: Vec<Val> = a.iter().map(|x| self.eval(x, e)).collect();
                Val::S(self.step_val(*s, &vals))
            }
            Term::Init => Val::S(self.init),
            Term::Pred(s) => {
                let k = self.sv(s, e);
                Val::S(self.pred[k as usize])
            }
            Term::In => {
                let (s, a) = e.self_step.clone().expect("`in` outside a step");
                let k = self.inst.get(&(s, a)).copied().unwrap_or(0);
                self.too_early |= k as usize > self.ready;
                self.input[k as usize]
            }
            Term::Input(s) => {
                let k = self.sv(s, e);
                self.too_early |= k as usize > self.ready;
                self.input[k as usize]
            }
            Term::MsgF(s) => {
                let k = self.sv(s, e);
                self.too_early |= k as usize > self.ready_msgs;
                self.msg[k as usize]
            }
            Term::CondF(s) => {
                let k = self.sv(s, e);
                self.too_early |= k as usize > self.ready_msgs;
                Val::B(self.cond[k as usize])
            }
            Term::ExecF(s) => {
                let k = self.sv(s, e);
                self.too_early |= k as usize > self.ready_msgs;
                Val::B(self.exec[k as usize])
            }
            Term::Happens(s) => {
                let k = self.sv(s, e);
                Val::B(self.happens[k as usize])
            }
            Term::Lt(b) | Term::Leq(b) | Term::Gt(b) => {
                let i = self.sv(&b.0, e) as usize;
                let j = self.sv(&b.1, e) as usize;
                Val::B(match t {
                    Term::Lt(_) => self.lt[i][j],
                    Term::Leq(_) => self.leq[i][j],
                    _ => self.gt[i][j],
                })
            }
            Term::Cell(c, a, s) => {
                let vals: Vec<Val> = a.iter().map(|x| self.eval(x, e)).collect();
                let k = self.sv(s, e);
                self.too_early |= k as usize > self.ready_cells;
                self.cell(*c, &vals, k)
            }
        }
    }
    pub fn cell(&mut self, c: usize, a: &[Val], s: u8) -> Val {
        match self.cells[s as usize].get(&(c, a.to_vec())) {
            Some(v) => *v,
            None => self.arena.mk(Node::Opaque(format!("init$cell{c}"), a.to_vec())),
        }
    }
    pub fn eval_step_part(&mut self, s: usize, vals: &[Val], is_msg: bool) -> Val {
        let p = self.p.clone();
        let st = &p.steps[s];
        let mut e2 = Env::default();
        for (v, x) in st.params.iter().zip(vals) {
            e2.vars.insert(v.id, *x);
        }
        e2.self_step = Some((s, vals.iter().map(|v| if let Val::I(_, k) = v { *k } else { 0 }).collect()));
        let body = if is_msg { &st.msg } else { &st.cond };
        self.eval(body, &mut e2)
    }
    pub fn show(&self, v: Val) -> String {
        match v {
            Val::M(i) => match &self.arena.nodes[i as usize] {
                Node::Name(f, a) => format!("{}{}", self.p.funs[*f].name, if a.is_empty() { String::new() } else { format!("{a:?}") }),
                Node::App(f, a) => format!("{}({})", self.p.funs[*f].name, a.iter().map(|x| self.show(*x)).collect::<Vec<_>>().join(",")),
                Node::Empty => "empty".into(),
                Node::Atk(k) => format!("atk{k}"),
                Node::Opaque(s, a) => format!("?{s}({})", a.iter().map(|x| self.show(*x)).collect::<Vec<_>>().join(",")),
            },
            Val::I(s, k) => format!("{}#{k}", self.p.types[s as usize]),
            Val::S(0) => "undef".into(),
            Val::S(1) => "init".into(),
            Val::S(k) => match &self.trace[k as usize] {
                Some((s, a)) => format!("{}{a:?}", self.p.steps[*s].name),
                None => format!("step{k}"),
            },
            v => format!("{v:?}"),
        }
    }
    pub fn describe(&self) -> String {
        let mut s = format!("domains {:?}; trace: init", self.dom);
        for k in 2..self.nsteps {
            s.push_str(&format!(" ; {} <- {}", self.show(Val::S(k as u8)), self.show(self.input[k])));
        }
        s
    }
    /// Recompute msg/cond/exec tables (functions msg, cond, exec) from the protocol, for every happening step.
    pub fn fill_macros(&mut self) {
        for k in 0..self.nsteps {
            if let Some((s, a)) = self.trace[k].clone() {
                let tys: Vec<Sort> = self.p.steps[s].params.iter().map(|v| v.sort).collect();
                let vals: Vec<Val> = a.iter().zip(tys).map(|(x, t)| if let Sort::Idx(i) = t { Val::I(i as u8, *x) } else { Val::B(false) }).collect();
                self.msg[k] = self.eval_step_part(s, &vals, true);
                self.cond[k] = matches!(self.eval_step_part(s, &vals, false), Val::B(true));
            }
        }
        if let Some(s) = self.p.steps.iter().position(|s| s.name == "init") {
            self.msg[1] = self.eval_step_part(s, &[], true);
            self.cond[1] = matches!(self.eval_step_part(s, &[], false), Val::B(true));
        }
        let mut ex = true;
        for k in 1..self.nsteps {
            ex = ex && self.cond[k];
            self.exec[k] = ex;
        }
    }
    /// Apply the cell assignments of the k-th step of the trace (cells[k] computed from cells[k-1]).
    pub fn run_cells(&mut self, k: usize) {
        let prev = self.cells[k - 1].clone();
        self.cells[k] = prev;
        if let Some((s, a)) = self.trace[k].clone() {
            let p = self.p.clone();
            let st = &p.steps[s];
            if st.assigns.is_empty() {
                return;
            }
            let vals: Vec<Val> = a.iter().zip(&st.params).map(|(x, t)| if let Sort::Idx(i) = t.sort { Val::I(i as u8, *x) } else { Val::B(false) }).collect();
            // right-hand sides may mention the cell at this very step only through other cells already assigned;
            // the generator only reads cells at pred(step) inside assignments.
            let mut updates = vec![];
            for asg in &st.assigns {
                let sorts: Vec<Sort> = asg.fresh.iter().map(|v| v.sort).collect();
                for tup in self.tuples(&sorts) {
                    let mut e = Env::default();
                    for (v, x) in st.params.iter().zip(&vals) {
                        e.vars.insert(v.id, *x);
                    }
                    for (v, x) in asg.fresh.iter().zip(&tup) {
                        e.vars.insert(v.id, *x);
                    }
                    e.self_step = Some((s, a.clone()));
                    let args: Vec<Val> = asg.args.iter().map(|t| self.eval(t, &mut e)).collect();
                    let v = self.eval(&asg.val, &mut e);
                    updates.push(((asg.cell, args), v));
                }
            }
            for (k2, v) in updates {
                self.cells[k].insert(k2, v);
            }
        }
    }
    pub fn collect_universe(&mut self, extra: &[Val]) -> Vec<Val> {
        let mut set = HashSet::new();
        let mut roots: Vec<Val> = extra.to_vec();
        roots.extend(self.all_names());
        roots.extend(self.input.iter().copied());
        roots.extend(self.msg.iter().copied());
        for c in &self.cells {
            roots.extend(c.values().copied());
        }
        let p = self.p.clone();
        for (fi, f) in p.funs.iter().enumerate() {
            if f.args.is_empty() && f.out == Sort::Msg {
                roots.push(self.apply(fi, &[]));
            }
        }
        for r in roots {
            self.arena.subvalues(r, &mut set);
        }
        let mut v: Vec<Val> = set.into_iter().collect();
        v.sort();
        v
    }
}

/// Random trace respecting the declared orders (each order checked on the final trace; offending instances dropped).
pub fn gen_world(p: &std::sync::Arc<Proto>, src: &mut Src, max_dom: usize, max_len: usize) -> World {
    let dom: Vec<u8> = p.types.iter().map(|_| src.range(1, max_dom) as u8).collect();
    let mut insts: Vec<(usize, Vec<u8>)> = vec![];
    for (si, s) in p.steps.iter().enumerate() {
        if s.name == "init" {
            continue;
        }
        let ns: Vec<u8> = s.params.iter().map(|v| if let Sort::Idx(i) = v.sort { dom[i] } else { 1 }).collect();
        for a in cmp_idx(&ns) {
            insts.push((si, a));
        }
    }
    src.shuffle(&mut insts);
    let len = src.range(0, max_len.min(insts.len()));
    insts.truncate(len);
    let seed = src.below(1 << 16) as u64;
    World::linear(p.clone(), dom, &insts, seed)
}
/// Does the world satisfy the declared orders?
pub fn order_ok(w: &mut World, o: &OrderD) -> bool {
    let sorts: Vec<Sort> = o.vars.iter().map(|v| v.sort).collect();
    for tup in w.tuples(&sorts) {
        let mut e = Env::default();
        for (v, x) in o.vars.iter().zip(&tup) {
            e.vars.insert(v.id, *x);
        }
        if let Some(g) = &o.guard {
            if !w.b(g, &mut e) {
                continue;
            }
        }
        let l = w.sv(&o.l, &mut e) as usize;
        let r = w.sv(&o.r, &mut e) as usize;
        let ok = match o.kind {
            OrdKind::Lt => !w.happens[r] || w.leq[l][r],
            OrdKind::Gt => !w.happens[l] || w.leq[r][l],
            OrdKind::Excl => !(w.happens[l] && w.happens[r]),
        };
        if !ok {
            return false;
        }
    }
    true
}
/// Remove instances until every declared order holds (deterministic; keeps the trace order).
pub fn repair_orders(mut w: World) -> World {
    loop {
        let p = w.p.clone();
        if p.orders.iter().all(|o| order_ok(&mut w, o)) {
            return w;
        }
        // drop the first instance whose removal or presence breaks something: simply drop the last one
        let mut insts: Vec<(usize, Vec<u8>)> = w.trace.iter().flatten().cloned().collect();
        if insts.is_empty() {
            return w;
        }
        // try to find an instance to drop that reduces the number of broken orders, else the last
        let mut best = insts.len() - 1;
        for k in 0..insts.len() {
            let mut c = insts.clone();
            c.remove(k);
            let mut w2 = World::linear(w.p.clone(), w.dom.clone(), &c, w.pred_seed);
            if p.orders.iter().all(|o| order_ok(&mut w2, o)) {
                best = k;
                break;
            }
        }
        insts.remove(best);
        w = World::linear(w.p.clone(), w.dom.clone(), &insts, w.pred_seed);
    }
}

/// Reference conditions of the time theory on an arbitrary finite structure; Err names the broken one.
pub fn time_ok(w: &mut World) -> Result<(), String> {
    let n = w.nsteps;
    let init = w.init as usize;
    if !w.happens[init] {
        return Err("init does not happen".into());
    }
    for a in 0..n {
        for b in 0..n {
            if w.leq[a][b] && !(w.happens[a] && w.happens[b]) {
                return Err("leq on a step that does not happen".into());
            }
            if w.happens[a] && w.happens[b] {
                if !w.leq[a][b] && !w.leq[b][a] {
                    return Err("order not total".into());
                }
                if a != b && w.leq[a][b] && w.leq[b][a] {
                    return Err("order not antisymmetric".into());
                }
            }
            for c in 0..n {
                if w.leq[a][b] && w.leq[b][c] && !w.leq[a][c] {
                    return Err("order not transitive".into());
                }
            }
            if w.lt[a][b] != (w.leq[a][b] && a != b) {
                return Err("lt is not strict leq".into());
            }
            if w.gt[a][b] != w.lt[b][a] {
                return Err("gt is not converse lt".into());
            }
            if !w.happens[a] && !w.happens[b] && a != b {
                return Err("two distinct steps that do not happen".into());
            }
        }
        if w.happens[a] && !w.leq[init][a] {
            return Err("init is not first".into());
        }
        let p = w.pred[a] as usize;
        if w.happens[a] && a != init {
            if !w.happens[p] {
                return Err("pred of a happening step does not happen".into());
            }
            if p == a || !w.leq[p][a] {
                return Err("pred is not before".into());
            }
            for c in 0..n {
                if w.happens[c] && w.leq[p][c] && w.leq[c][a] && c != p && c != a {
                    return Err("pred is not immediate".into());
                }
            }
        } else if w.happens[p] {
            return Err("pred of init or of a non-happening step happens".into());
        }
    }
    // instances
    let mut seen: HashMap<u8, (usize, Vec<u8>)> = HashMap::new();
    let p = w.p.clone();
    for (si, s) in p.steps.iter().enumerate() {
        if s.name == "init" {
            continue;
        }
        let ns: Vec<u8> = s.params.iter().map(|v| if let Sort::Idx(i) = v.sort { w.dom[i] } else { 1 }).collect();
        for a in cmp_idx(&ns) {
            let v = w.inst.get(&(si, a.clone())).copied().unwrap_or(0);
            if !w.happens[v as usize] {
                continue;
            }
            if v as usize == init {
                return Err("an instance is init".into());
            }
            if seen.insert(v, (si, a)).is_some() {
                return Err("two instances are the same happening step".into());
            }
        }
    }
    for k in 0..n {
        if w.happens[k] && k != init && !seen.contains_key(&(k as u8)) {
            return Err("a happening step is no instance".into());
        }
    }
    for o in p.orders.iter() {
        if !order_ok(w, o) {
            return Err("a declared order is broken".into());
        }
    }
    Ok(())
}
