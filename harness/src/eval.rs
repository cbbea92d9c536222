//! Evaluation of the emitted problem in a world (evaluated realm, and the symbolic realm through a term arena).
use crate::model::*;
use crate::proto::*;
use crate::smt::*;
use crate::src::Rng;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Interp {
    User(usize),
    Step(usize),
    Init,
    Pred,
    Input,
    Msg,
    Cond,
    Exec,
    Happens,
    Lt,
    Leq,
    Gt,
    Empty,
    Cast,
    TaAnd,
    TaOr,
    TaNot,
    TaImp,
    TaIff,
    TaTrue,
    TaFalse,
    TaEq,
    TaIte,
    Ident,
    Subterm(String),
    Cell(usize),
    Sel(SymId, usize),
    /// interpreted through the axioms that mention it
    Unknown,
}

/// Recipe found in the emitted axioms for symbols the harness does not know a priori.
#[derive(Clone, Debug)]
pub enum Def {
    /// f(vars) := body
    Body(Vec<usize>, T, usize),
    /// skolem group: for the free variables, choose the tuple of values making `body` true; this symbol is component k
    Skolem { vars: Vec<usize>, syms: Vec<SymId>, k: usize, body: T, slots: usize },
}

pub struct Ev<'a> {
    pub p: &'a Problem,
    pub w: World,
    pub interp: Vec<Interp>,
    pub defs: HashMap<SymId, Def>,
    pub names: Vec<Val>,
    pub bool_dom: Vec<Val>,
    /// true: Message quantifiers range exactly over `universe` (relative semantics);
    /// false: universe is a sample, so an exhausted quantifier is only "unknown"
    pub relative: bool,
    pub universe: Vec<Val>,
    pub rng: Rng,
    pub budget: usize,
    pub memo: HashMap<(SymId, Vec<Val>), Val>,
    pub symbolic: bool,
    pub unknown_used: Vec<SymId>,
    sk_forced: HashMap<(SymId, Vec<Val>), Val>,
    depth: usize,
    /// Message existentials range over the universe and whatever the assertion computed so far (definitely false when
    /// exhausted); Message universals over the universe only (never definitely true)
    pub crypto: bool,
    recent: Vec<Val>,
    recent_set: std::collections::HashSet<Val>,
    in_exists: usize,
    /// quantifier instances left for this assertion
    pub fuel: usize,
    /// what it starts with
    pub tank: usize,
    /// bounds the work per assertion even outside the cryptographic worlds
    pub limit: Option<usize>,
    /// some quantifier was too large
    pub exhausted: bool,
    /// symbolic realm: Message, Condition and Name are sorts of terms
    ctor: Vec<bool>,
    terms: Vec<(SymId, Vec<Val>)>,
    term_ids: HashMap<(SymId, Vec<Val>), u32>,
    evaluated: HashMap<u32, Val>,
    conds: Vec<Val>,
    /// the value of this application is something else
    twist: Option<(SymId, Vec<Val>, Val)>,
    uppers: HashMap<SymId, Vec<std::rc::Rc<Upper>>>,
}

pub fn interpret(p: &Problem, proto: &Proto) -> Vec<Interp> {
    p.syms
        .iter()
        .map(|s| {
            if let SymKind::Sel(c, k) = s.kind {
                return Interp::Sel(c, k);
            }
            let n = s.name.as_str();
            // functions on values (symbolic realm)
            let n = match n.strip_prefix("eval$") {
                Some(m) if m == "empty" || proto.funs.iter().any(|f| f.name == m) => m,
                _ => n,
            };
            if let Some(i) = proto.funs.iter().position(|f| f.name == n) {
                return Interp::User(i);
            }
            if let Some(i) = proto.steps.iter().position(|f| f.name == n && n != "init") {
                return Interp::Step(i);
            }
            if let Some(i) = proto.cells.iter().position(|f| f.name == n) {
                return Interp::Cell(i);
            }
            match n {
                "init" => Interp::Init,
                "pred" => Interp::Pred,
                "input" => Interp::Input,
                "msg" => Interp::Msg,
                "cond" => Interp::Cond,
                "exec" => Interp::Exec,
                "happens" => Interp::Happens,
                "lt" => Interp::Lt,
                "leq" => Interp::Leq,
                "gt" => Interp::Gt,
                "empty" => Interp::Empty,
                "ta$and" => Interp::TaAnd,
                "ta$or" => Interp::TaOr,
                "ta$not" => Interp::TaNot,
                "ta$implies" => Interp::TaImp,
                "ta$iff" => Interp::TaIff,
                "ta$true" => Interp::TaTrue,
                "ta$false" => Interp::TaFalse,
                "ta$=" => Interp::TaEq,
                "ta$ite" => Interp::TaIte,
                "evaluate_msg" | "evaluate_cond" => Interp::Ident,
                _ if n.starts_with("cast$") => Interp::Cast,
                _ if n.contains("subterm_") => Interp::Subterm(n[n.find("subterm_").unwrap()..].to_string()),
                _ => Interp::Unknown,
            }
        })
        .collect()
}

fn is_var_app(t: &T, vars: &[usize]) -> Option<SymId> {
    if let T::App(f, a) = t {
        if a.len() == vars.len() && a.iter().zip(vars).all(|(x, v)| *x == T::Var(*v)) {
            return Some(*f);
        }
    }
    None
}
fn subst_syms(t: &T, out: &mut Vec<SymId>) {
    match t {
        T::App(f, a) => {
            if !out.contains(f) {
                out.push(*f);
            }
            a.iter().for_each(|x| subst_syms(x, out));
        }
        T::Not(x) => subst_syms(x, out),
        T::And(v) | T::Or(v) | T::Imp(v) | T::Eq(v) | T::Distinct(v) => v.iter().for_each(|x| subst_syms(x, out)),
        T::Ite(b) => {
            subst_syms(&b.0, out);
            subst_syms(&b.1, out);
            subst_syms(&b.2, out);
        }
        T::Q(_, _, b) => subst_syms(b, out),
        _ => {}
    }
}
pub fn symbols(t: &T) -> Vec<SymId> {
    let mut v = vec![];
    subst_syms(t, &mut v);
    v
}

/// Find definitions of unknown symbols among the assertions.
pub fn find_defs(p: &Problem, interp: &[Interp]) -> HashMap<SymId, Def> {
    let mut defs: HashMap<SymId, Def> = HashMap::new();
    let strip_eval = |t: &T| -> T {
        // evaluate_x(t) -> t
        if let T::App(f, a) = t {
            if interp[*f] == Interp::Ident && a.len() == 1 {
                return a[0].clone();
            }
        }
        t.clone()
    };
    let unknown = |f: SymId| interp[f] == Interp::Unknown;
    for pass in 0..2 {
        for a in &p.asserts {
            let (vars, body): (Vec<usize>, &T) = match &a.t {
                T::Q(true, v, b) => (v.iter().map(|x| x.0).collect(), b),
                t => (vec![], t),
            };
            match body {
                T::Eq(v) if v.len() == 2 => {
                    let l = strip_eval(&v[0]);
                    if let Some(f) = is_var_app(&l, &vars) {
                        if unknown(f) && !defs.contains_key(&f) && !symbols(&v[1]).contains(&f) {
                            defs.insert(f, Def::Body(vars.clone(), v[1].clone(), a.slots));
                        }
                    }
                }
                // only ⇒ given: take the largest interpretation
                T::Imp(v) if v.len() == 2 && pass == 1 => {
                    let l = strip_eval(&v[0]);
                    if let Some(f) = is_var_app(&l, &vars) {
                        if unknown(f) && !defs.contains_key(&f) && !symbols(&v[1]).contains(&f) {
                            defs.insert(f, Def::Body(vars.clone(), v[1].clone(), a.slots));
                        }
                    }
                }
                // skolem axiom: (or (forall ys. not C) C[sk])
                T::Or(v) if v.len() == 2 => {
                    let mut sks: Vec<SymId> = symbols(&v[1]).into_iter().filter(|f| unknown(*f) && !defs.contains_key(f) && p.syms[*f].out != "Bool" && !matches!(p.norm(&p.syms[*f].out).as_str(), "Message" | "Condition" | "Bool")).collect();
                    if matches!(v[0], T::Q(true, ..)) && !sks.is_empty() {
                        sks.sort();
                        for (k, s) in sks.iter().enumerate() {
                            if p.syms[*s].args.len() == vars.len() {
                                defs.insert(*s, Def::Skolem { vars: vars.clone(), syms: sks.clone(), k, body: v[1].clone(), slots: a.slots });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    defs
}

/// An upper bound of a relation: on arguments of this shape it implies the body (nothing, without a body).
#[derive(Clone, Debug)]
pub struct Upper {
    pats: Vec<T>,
    body: Option<T>,
    slots: usize,
}
fn upper_of<'t>(a: &'t Assertion, interp: &[Interp]) -> Option<(SymId, &'t [T], Option<&'t T>)> {
    let body = match &a.t {
        T::Q(true, _, b) => &**b,
        t => t,
    };
    let (l, b) = match body {
        T::Imp(v) if v.len() == 2 => (&v[0], Some(&v[1])),
        T::Not(x) => (&**x, None),
        _ => return None,
    };
    match l {
        T::App(f, pats) if matches!(interp[*f], Interp::Subterm(_)) => Some((*f, pats, b)),
        _ => None,
    }
}
/// The axioms `(subterm x (f ys)) => body`, by relation.
pub fn find_uppers(p: &Problem, interp: &[Interp]) -> HashMap<SymId, Vec<std::rc::Rc<Upper>>> {
    let mut m: HashMap<SymId, Vec<std::rc::Rc<Upper>>> = HashMap::new();
    for a in &p.asserts {
        if let Some((f, pats, b)) = upper_of(a, interp) {
            m.entry(f).or_default().push(std::rc::Rc::new(Upper { pats: pats.to_vec(), body: b.map(crate::smt::miniscope), slots: a.slots }));
        }
    }
    m
}

fn and3(a: Val, b: Val) -> Val {
    match (a, b) {
        (Val::B(false), _) | (_, Val::B(false)) => Val::B(false),
        (Val::B(true), Val::B(true)) => Val::B(true),
        _ => Val::U,
    }
}
fn not3(a: Val) -> Val {
    match a {
        Val::B(b) => Val::B(!b),
        _ => Val::U,
    }
}

impl<'a> Ev<'a> {
    pub fn new(p: &'a Problem, w: World, seed: u64) -> Ev<'a> {
        let interp = interpret(p, &w.p);
        let defs = find_defs(p, &interp);
        let mut w = w;
        let names = w.all_names();
        let symbolic = p.datatypes.contains_key("Message");
        let ctor = p.syms.iter().map(|s| symbolic && s.kind == SymKind::Ctor && ["Message", "Condition", "Name"].contains(&s.out.as_str())).collect();
        let mut e = Ev {
            p,
            defs,
            names,
            bool_dom: vec![Val::B(false), Val::B(true)],
            relative: false,
            universe: vec![],
            rng: Rng::new(seed),
            budget: 3000,
            memo: HashMap::new(),
            symbolic,
            unknown_used: vec![],
            sk_forced: HashMap::new(),
            depth: 0,
            crypto: false,
            recent: vec![],
            recent_set: Default::default(),
            in_exists: 0,
            fuel: usize::MAX,
            tank: 400_000,
            limit: None,
            exhausted: false,
            ctor,
            terms: vec![],
            term_ids: HashMap::new(),
            evaluated: HashMap::new(),
            conds: vec![],
            twist: None,
            uppers: if symbolic { find_uppers(p, &interp) } else { HashMap::new() },
            interp,
            w,
        };
        if symbolic {
            e.names = e.term_names();
            let n = e.w.nsteps;
            let mut c: Vec<Val> = ["ta$true", "ta$false"].iter().filter_map(|f| p.by_name.get(*f)).map(|f| e.mk(*f, vec![])).collect();
            if let Some(f) = p.by_name.get("cond") {
                c.extend((0..n).map(|k| e.mk(*f, vec![Val::S(k as u8)])));
            }
            e.conds = c;
        }
        e
    }
    /// the terms that have the inputs, outputs and contents of this world as values (symbolic realm)
    pub fn some_terms(&mut self) -> Vec<Val> {
        let mut v = vec![];
        for f in ["input", "msg"] {
            if let Some(f) = self.p.by_name.get(f) {
                v.extend((0..self.w.nsteps).map(|k| (*f, vec![Val::S(k as u8)])).collect::<Vec<_>>());
            }
        }
        v.into_iter().map(|(f, a)| self.mk(f, a)).collect()
    }
    fn term_names(&mut self) -> Vec<Val> {
        let mut v = vec![];
        for f in 0..self.p.syms.len() {
            if let Interp::User(i) = self.interp[f] {
                if self.ctor[f] && self.p.syms[f].out == "Name" {
                    let sorts = self.w.p.funs[i].args.clone();
                    for t in self.w.tuples(&sorts) {
                        let x = self.mk(f, t);
                        v.push(x);
                    }
                }
            }
        }
        v
    }
    fn mk(&mut self, f: SymId, a: Vec<Val>) -> Val {
        if let Some(i) = self.term_ids.get(&(f, a.clone())) {
            return Val::T(*i);
        }
        let i = self.terms.len() as u32;
        self.terms.push((f, a.clone()));
        self.term_ids.insert((f, a), i);
        Val::T(i)
    }
    /// the value of a term
    fn value(&mut self, v: Val) -> Val {
        let i = match v {
            Val::T(i) => i,
            v => return v,
        };
        if let Some(v) = self.evaluated.get(&i) {
            return *v;
        }
        let (f, a) = self.terms[i as usize].clone();
        if let Some((g, b, v)) = &self.twist {
            if *g == f && *b == a {
                return *v;
            }
        }
        let r = if self.interp[f] == Interp::Unknown {
            self.unknown(f, a)
        } else {
            let b = a.into_iter().map(|x| self.value(x)).collect();
            self.meaning(f, b)
        };
        if r != Val::U {
            self.evaluated.insert(i, r);
        }
        r
    }
    fn dom(&self, sort: &str) -> (Vec<Val>, bool) {
        match sort {
            "Bool" => (self.bool_dom.clone(), true),
            "Step" => ((0..self.w.nsteps).map(|k| Val::S(k as u8)).collect(), true),
            "Name" => (self.names.clone(), true),
            "Message" => (self.universe.clone(), self.relative),
            "Condition" if self.symbolic => (self.conds.clone(), self.relative),
            s => {
                if let Some(i) = self.w.p.types.iter().position(|t| t == s) {
                    ((0..self.w.dom[i]).map(|k| Val::I(i as u8, k)).collect(), true)
                } else {
                    (vec![], false)
                }
            }
        }
    }
    pub fn assertion(&mut self, a: &Assertion) -> Val {
        if self.crypto && upper_of(a, &self.interp).is_some_and(|(f, _, _)| self.uppers.contains_key(&f)) {
            // true by definition
            return Val::B(true);
        }
        let mut slots = vec![Val::U; a.slots];
        if let Some(n) = self.limit {
            self.fuel = n;
        }
        if self.crypto {
            self.fuel = self.tank;
            if self.symbolic {
                self.memo.clear();
            }
            self.recent.clear();
            self.recent_set = self.universe.iter().copied().collect();
        }
        self.ev(if self.crypto { &a.mini } else { &a.t }, &mut slots)
    }
    pub fn ev(&mut self, t: &T, s: &mut Vec<Val>) -> Val {
        match t {
            T::Var(i) => s[*i],
            T::True => Val::B(true),
            T::False => Val::B(false),
            T::Not(x) => {
                let v = self.ev(x, s);
                not3(v)
            }
            T::And(v) => {
                let mut r = Val::B(true);
                for x in v {
                    let y = self.ev(x, s);
                    r = and3(r, y);
                    if r == Val::B(false) {
                        return r;
                    }
                }
                r
            }
            T::Or(v) => {
                let mut r = Val::B(false);
                for x in v {
                    match self.ev(x, s) {
                        Val::B(true) => return Val::B(true),
                        Val::B(false) => {}
                        _ => r = Val::U,
                    }
                }
                r
            }
            T::Imp(v) => {
                // right associative
                let n = v.len();
                let mut unknown = false;
                for x in &v[..n - 1] {
                    match self.ev(x, s) {
                        Val::B(false) => return Val::B(true),
                        Val::B(true) => {}
                        _ => unknown = true,
                    }
                }
                match self.ev(&v[n - 1], s) {
                    Val::B(true) => Val::B(true),
                    _ if unknown => Val::U,
                    r => r,
                }
            }
            T::Eq(v) => {
                let a = self.ev(&v[0], s);
                let mut r = Val::B(true);
                let mut prev = a;
                for x in &v[1..] {
                    let b = self.ev(x, s);
                    if prev == Val::U || b == Val::U {
                        r = and3(r, Val::U);
                    } else if prev != b {
                        return Val::B(false);
                    }
                    prev = b;
                }
                r
            }
            T::Distinct(v) => {
                let vs: Vec<Val> = v.iter().map(|x| self.ev(x, s)).collect();
                if vs.contains(&Val::U) {
                    return Val::U;
                }
                for i in 0..vs.len() {
                    for j in 0..i {
                        if vs[i] == vs[j] {
                            return Val::B(false);
                        }
                    }
                }
                Val::B(true)
            }
            T::Ite(b) => match self.ev(&b.0, s) {
                Val::B(true) => self.ev(&b.1, s),
                Val::B(false) => self.ev(&b.2, s),
                _ => {
                    let x = self.ev(&b.1, s);
                    let y = self.ev(&b.2, s);
                    if x == y { x } else { Val::U }
                }
            },
            T::Q(fa, vs, b) => self.quant(*fa, vs, b, s),
            T::App(f, args) => {
                let mut a = Vec::with_capacity(args.len());
                for x in args {
                    let v = self.ev(x, s);
                    a.push(v);
                }
                let r = self.app(*f, a);
                if self.crypto {
                    self.keep(r);
                }
                r
            }
        }
    }
    /// is there a value of the variables from `k` on? (the later ones stay unknown until they matter)
    fn some(&mut self, k: usize, vs: &[(usize, String)], b: &T, s: &mut Vec<Val>, doms: &[(Vec<Val>, bool)]) -> Val {
        let mut r = Val::B(false);
        for x in &doms[k].0 {
            if self.fuel == 0 {
                self.exhausted = true;
                return Val::U;
            }
            self.fuel -= 1;
            s[vs[k].0] = *x;
            for v in &vs[k + 1..] {
                s[v.0] = Val::U;
            }
            let mut y = self.ev(b, s);
            if y == Val::U && k + 1 < vs.len() {
                y = self.some(k + 1, vs, b, s, doms);
            }
            match y {
                Val::B(true) => return y,
                Val::B(false) => {}
                _ => r = Val::U,
            }
        }
        if doms[k].1 { r } else { Val::U }
    }
    fn keep(&mut self, r: Val) {
        let keep = match r {
            Val::M(_) => true,
            Val::T(i) => self.p.syms[self.terms[i as usize].0].out == "Message",
            _ => false,
        };
        if self.in_exists == 0 && keep && self.recent.len() < 500 && self.recent_set.insert(r) {
            self.recent.push(r);
        }
    }
    fn quant(&mut self, fa: bool, vs: &[(usize, String)], b: &T, s: &mut Vec<Val>) -> Val {
        let mut doms: Vec<(Vec<Val>, bool)> = vs.iter().map(|v| self.dom(&v.1)).collect();
        let over_msg = self.crypto && !fa && vs.iter().any(|v| v.1 == "Message" || v.1 == "Bitstring");
        if over_msg {
            if self.symbolic {
                // what can be said whatever the messages are; this also collects the terms the body talks about
                let known: Vec<usize> = (0..vs.len()).filter(|k| vs[*k].1 != "Message" && vs[*k].1 != "Bitstring").collect();
                let (vs2, doms2): (Vec<_>, Vec<_>) = known.iter().map(|k| (vs[*k].clone(), doms[*k].clone())).unzip();
                for v in vs {
                    s[v.0] = Val::U;
                }
                let r = if vs2.is_empty() { self.ev(b, s) } else { self.quant_over(false, &vs2, b, s, doms2) };
                if r != Val::U {
                    return r;
                }
            }
            let symbolic = self.symbolic;
            let of = |x: &Val, sort: &str| !symbolic || matches!(x, Val::T(_)) == (sort == "Message");
            for (d, v) in doms.iter_mut().zip(vs) {
                if v.1 == "Message" || v.1 == "Bitstring" {
                    d.0.extend(self.recent.iter().copied().filter(|x| of(x, &v.1)));
                    d.1 = true;
                }
            }
            if !symbolic && doms.iter().map(|d| d.0.len()).product::<usize>() > 100_000 {
                self.exhausted = true;
                return Val::U;
            }
            self.in_exists += 1;
            let r = if self.symbolic { self.some(0, vs, b, s, &doms) } else { self.quant_over(fa, vs, b, s, doms) };
            self.in_exists -= 1;
            return r;
        }
        self.quant_over(fa, vs, b, s, doms)
    }
    fn quant_over(&mut self, fa: bool, vs: &[(usize, String)], b: &T, s: &mut Vec<Val>, doms: Vec<(Vec<Val>, bool)>) -> Val {
        let exact = doms.iter().all(|d| d.1);
        let mut total: usize = 1;
        for d in &doms {
            total = total.saturating_mul(d.0.len());
        }
        let mut unknown = false;
        if total <= self.budget || exact {
            if doms.iter().any(|d| d.0.is_empty()) {
                return if exact { Val::B(fa) } else { Val::U };
            }
            let mut idx = vec![0usize; vs.len()];
            loop {
                for (k, v) in vs.iter().enumerate() {
                    s[v.0] = doms[k].0[idx[k]];
                }
                if self.fuel == 0 {
                    self.exhausted = true;
                    return Val::U;
                }
                self.fuel = self.fuel.saturating_sub(1);
                match self.ev(b, s) {
                    Val::B(x) if x != fa => {
                        if self.crypto && std::env::var("CV_TRACE").is_ok() {
                            let l: Vec<String> = vs.iter().map(|v| self.show_app_of(s[v.0])).collect();
                            eprintln!("{}decided by {}", " ".repeat(self.depth), l.join(" , "));
                        }
                        return Val::B(!fa);
                    }
                    Val::B(_) => {}
                    _ => unknown = true,
                }
                let mut k = vs.len();
                loop {
                    if k == 0 {
                        return if unknown || !exact { Val::U } else { Val::B(fa) };
                    }
                    k -= 1;
                    idx[k] += 1;
                    if idx[k] < doms[k].0.len() {
                        break;
                    }
                    idx[k] = 0;
                }
            }
        } else {
            for _ in 0..self.budget.min(self.fuel) {
                self.fuel = self.fuel.saturating_sub(1);
                for (k, v) in vs.iter().enumerate() {
                    let d = &doms[k].0;
                    let i = self.rng.below(d.len() as u64) as usize;
                    s[v.0] = d[i];
                }
                if let Val::B(x) = self.ev(b, s) {
                    if x != fa {
                        return Val::B(!fa);
                    }
                }
            }
            Val::U
        }
    }
    fn app(&mut self, f: SymId, a: Vec<Val>) -> Val {
        if self.ctor[f] {
            return if a.contains(&Val::U) { Val::U } else { self.mk(f, a) };
        }
        if self.symbolic {
            match self.interp[f] {
                Interp::Ident => return self.value(a[0]),
                Interp::Sel(c, k) if matches!(a[0], Val::T(_)) => {
                    let Val::T(i) = a[0] else { unreachable!() };
                    let (g, b) = &self.terms[i as usize];
                    return if *g == c { b[k] } else { Val::U };
                }
                _ => {}
            }
        }
        if let Some((g, b, v)) = &self.twist {
            if *g == f && *b == a {
                return *v;
            }
        }
        self.meaning(f, a)
    }
    /// Applications whose value the problem has to determine: a symbol, its arguments, and another value than the right
    /// one. `up`: only in the direction false to true.
    pub fn twisted(&mut self, s: &mut crate::src::Src, bitstrings: bool) -> Option<(SymId, Vec<Val>, Val)> {
        let cand: Vec<(SymId, bool)> = (0..self.p.syms.len())
            .filter_map(|f| {
                let quant = self.p.syms[f].name.contains("ta$forall") || self.p.syms[f].name.contains("ta$exists");
                match self.interp[f] {
                    Interp::TaNot => Some((f, true)),
                    Interp::TaAnd | Interp::TaOr | Interp::TaImp | Interp::TaIff | Interp::TaEq | Interp::TaIte | Interp::TaTrue | Interp::TaFalse => Some((f, false)),
                    Interp::User(_) if self.ctor[f] && bitstrings && self.p.syms[f].out != "Name" => Some((f, false)),
                    Interp::Unknown if matches!(self.defs.get(&f), Some(Def::Body(..))) => Some((f, quant)),
                    _ => None,
                }
            })
            .collect();
        if cand.is_empty() {
            return None;
        }
        let (f, up) = *s.pick(&cand);
        let mut a = vec![];
        for so in &self.p.syms[f].args {
            let d = self.dom(&self.p.norm(so)).0;
            if d.is_empty() {
                return None;
            }
            a.push(*s.pick(&d));
        }
        let v = if self.ctor[f] {
            let t = self.mk(f, a.clone());
            self.value(t)
        } else {
            self.app(f, a.clone())
        };
        let w = match v {
            Val::B(true) if up => return None,
            Val::B(b) => Val::B(!b),
            Val::M(_) => {
                let o: Vec<Val> = self.w.universe.iter().copied().filter(|x| *x != v).collect();
                if o.is_empty() {
                    return None;
                }
                *s.pick(&o)
            }
            _ => return None,
        };
        Some((f, a, w))
    }
    pub fn set_twist(&mut self, t: Option<(SymId, Vec<Val>, Val)>) {
        self.evaluated.clear();
        self.memo.clear();
        self.twist = t;
    }
    fn show_app_of(&self, v: Val) -> String {
        match v {
            Val::T(i) => {
                let (f, a) = &self.terms[i as usize];
                self.show_app(*f, a)
            }
            v => self.w.show(v),
        }
    }
    pub fn show_app(&self, f: SymId, a: &[Val]) -> String {
        let mut o = self.p.syms[f].name.clone();
        for x in a {
            o += " ";
            o += &match x {
                Val::T(i) => {
                    let (g, b) = &self.terms[*i as usize];
                    format!("({})", self.show_app(*g, b))
                }
                v => self.w.show(*v),
            };
        }
        o
    }
    fn meaning(&mut self, f: SymId, a: Vec<Val>) -> Val {
        let it = self.interp[f].clone();
        let st = |v: &Val| if let Val::S(k) = v { *k as usize } else { 0 };
        if a.contains(&Val::U) && !matches!(it, Interp::TaAnd | Interp::TaOr | Interp::TaNot | Interp::TaImp | Interp::TaIff | Interp::TaIte | Interp::Ident) && !(self.symbolic && matches!(it, Interp::Subterm(_))) {
            return Val::U;
        }
        match it {
            Interp::User(i) => self.w.apply(i, &a),
            Interp::Step(i) => Val::S(self.w.step_val(i, &a)),
            Interp::Init => Val::S(self.w.init),
            Interp::Pred => Val::S(self.w.pred[st(&a[0])]),
            Interp::Input => self.w.input[st(&a[0])],
            Interp::Msg => self.w.msg[st(&a[0])],
            Interp::Cond => Val::B(self.w.cond[st(&a[0])]),
            Interp::Exec => Val::B(self.w.exec[st(&a[0])]),
            Interp::Happens => Val::B(self.w.happens[st(&a[0])]),
            Interp::Lt => Val::B(self.w.lt[st(&a[0])][st(&a[1])]),
            Interp::Leq => Val::B(self.w.leq[st(&a[0])][st(&a[1])]),
            Interp::Gt => Val::B(self.w.gt[st(&a[0])][st(&a[1])]),
            Interp::Empty => self.w.arena.mk(Node::Empty),
            Interp::Cast | Interp::Ident => a[0],
            Interp::TaAnd => and3(a[0], a[1]),
            Interp::TaOr => not3(and3(not3(a[0]), not3(a[1]))),
            Interp::TaNot => not3(a[0]),
            Interp::TaImp => not3(and3(a[0], not3(a[1]))),
            Interp::TaIff | Interp::TaEq => {
                if a[0] == Val::U || a[1] == Val::U { Val::U } else { Val::B(a[0] == a[1]) }
            }
            Interp::TaTrue => Val::B(true),
            Interp::TaFalse => Val::B(false),
            Interp::TaIte => match a[0] {
                Val::B(true) => a[1],
                Val::B(false) => a[2],
                _ => Val::U,
            },
            Interp::Subterm(_) if self.symbolic => self.upper(f, a),
            Interp::Subterm(k) => {
                if k.starts_with("subterm_nonce") {
                    match (a[0], a[1]) {
                        (Val::M(n), Val::M(m)) => {
                            // Bitstring is an alias of Message in this realm, and the emitted theory says that
                            // no bitstring has subterms; only the Message and Name relations are interpreted.
                            let sym = &self.p.syms[f];
                            if sym.args[1] == "Bitstring" {
                                return Val::B(false);
                            }
                            Val::B(self.w.arena.names_in(m).contains(&n))
                        }
                        _ => Val::B(false),
                    }
                } else {
                    Val::U
                }
            }
            Interp::Cell(c) => {
                let k = st(a.last().unwrap());
                let n = a.len() - 1;
                self.w.cell(c, &a[..n], k as u8)
            }
            Interp::Sel(c, k) => match (&self.interp[c].clone(), self.w.arena.get(a[0]).cloned()) {
                (Interp::User(i), Some(Node::Name(j, idx))) if *i == j => {
                    if let Sort::Idx(ty) = self.w.p.funs[j].args[k] { Val::I(ty as u8, idx[k]) } else { Val::U }
                }
                _ => Val::U,
            },
            Interp::Unknown => self.unknown(f, a),
        }
    }
    /// the largest relation its axioms allow (they say when it does not hold)
    fn upper(&mut self, f: SymId, a: Vec<Val>) -> Val {
        if let Some(v) = self.memo.get(&(f, a.clone())) {
            return *v;
        }
        if self.depth > 60 {
            return Val::U;
        }
        let us = self.uppers.get(&f).cloned().unwrap_or_default();
        let mut r = Val::B(true);
        self.depth += 1;
        for u in us {
            let mut s = vec![Val::U; u.slots];
            let mut sure = true;
            if !u.pats.iter().zip(&a).all(|(p, v)| self.matches(p, *v, &mut s, &mut sure)) {
                continue;
            }
            let v = match &u.body {
                Some(b) => self.ev(b, &mut s),
                None => Val::B(false),
            };
            r = and3(r, if sure || v == Val::B(true) { v } else { Val::U });
            if r == Val::B(false) {
                break;
            }
        }
        self.depth -= 1;
        if r != Val::U && self.in_exists == 0 && !a.contains(&Val::U) {
            self.memo.insert((f, a), r);
        }
        r
    }
    /// could `v` be an instance of this pattern? (`sure`: it is one)
    fn matches(&mut self, p: &T, v: Val, s: &mut Vec<Val>, sure: &mut bool) -> bool {
        match p {
            T::Var(i) => {
                self.keep(v);
                if s[*i] == Val::U {
                    s[*i] = v;
                }
                *sure &= s[*i] != Val::U && v != Val::U || s[*i] == v;
                s[*i] == v || v == Val::U
            }
            T::App(f, ps) => match v {
                Val::U => {
                    *sure = false;
                    true
                }
                Val::T(i) if self.ctor[*f] => {
                    let (g, a) = self.terms[i as usize].clone();
                    g == *f && ps.iter().zip(&a).all(|(p, v)| self.matches(p, *v, s, sure))
                }
                v => {
                    let mut t = s.clone();
                    let x = self.ev(p, &mut t);
                    *sure &= x != Val::U;
                    x == v || x == Val::U
                }
            },
            _ => false,
        }
    }
    /// Symbolic realm: terms the assertions are about, those with a verification that succeeds first.
    pub fn relevant_terms(&mut self, s: &mut crate::src::Src, n: usize) -> Vec<Val> {
        let mut v: Vec<Val> = vec![];
        let mut rest = vec![];
        for i in 0..self.terms.len() {
            let (f, a) = self.terms[i].clone();
            if let Interp::User(_) = self.interp[f] {
                let msgs: Vec<Val> = a.iter().copied().filter(|x| matches!(x, Val::T(j) if self.p.syms[self.terms[*j as usize].0].out == "Message")).collect();
                if self.value(Val::T(i as u32)) == Val::B(true) {
                    v.extend(&msgs);
                } else {
                    rest.extend(&msgs);
                }
            }
            if self.p.syms[f].out == "Message" {
                rest.push(Val::T(i as u32));
            }
        }
        // in an order that does not depend on the order of the assertions
        v.sort_by_cached_key(|x| self.show_app_of(*x));
        rest.sort_by_cached_key(|x| self.show_app_of(*x));
        let mut seen = std::collections::HashSet::new();
        v.retain(|x| seen.insert(*x));
        while v.len() > n {
            let k = s.below(v.len());
            v.swap_remove(k);
        }
        rest.retain(|x| seen.insert(*x));
        while v.len() < n && !rest.is_empty() {
            let k = s.below(rest.len());
            v.push(rest.swap_remove(k));
        }
        v
    }
    fn unknown(&mut self, f: SymId, a: Vec<Val>) -> Val {
        if let Some(v) = self.sk_forced.get(&(f, a.clone())) {
            return *v;
        }
        if let Some(v) = self.memo.get(&(f, a.clone())) {
            return *v;
        }
        if self.depth > 40 {
            return Val::U;
        }
        let v = match self.defs.get(&f).cloned() {
            // a skolem constrained by nothing: any value will do
            None if self.w.p.types.contains(&self.p.norm(&self.p.syms[f].out)) => {
                let d = self.dom(&self.p.norm(&self.p.syms[f].out)).0;
                d[0]
            }
            None => {
                if !self.unknown_used.contains(&f) {
                    self.unknown_used.push(f);
                }
                return Val::U;
            }
            Some(Def::Body(vars, body, slots)) => {
                let mut s = vec![Val::U; slots];
                for (v, x) in vars.iter().zip(&a) {
                    s[*v] = *x;
                }
                self.depth += 1;
                let r = self.ev(&body, &mut s);
                self.depth -= 1;
                r
            }
            Some(Def::Skolem { vars, syms, k, body, slots }) => {
                let doms: Vec<Vec<Val>> = syms.iter().map(|y| self.dom(&self.p.norm(&self.p.syms[*y].out)).0).collect();
                if doms.iter().any(|d| d.is_empty()) {
                    return Val::U;
                }
                let mut idx = vec![0usize; syms.len()];
                let mut found: Option<Vec<Val>> = None;
                self.depth += 1;
                'outer: loop {
                    let vals: Vec<Val> = idx.iter().enumerate().map(|(i, j)| doms[i][*j]).collect();
                    for (y, v) in syms.iter().zip(&vals) {
                        self.sk_forced.insert((*y, a.clone()), *v);
                    }
                    let mut s = vec![Val::U; slots];
                    for (v, x) in vars.iter().zip(&a) {
                        s[*v] = *x;
                    }
                    if self.ev(&body, &mut s) == Val::B(true) {
                        found = Some(vals);
                        break 'outer;
                    }
                    let mut q = syms.len();
                    loop {
                        if q == 0 {
                            break 'outer;
                        }
                        q -= 1;
                        idx[q] += 1;
                        if idx[q] < doms[q].len() {
                            break;
                        }
                        idx[q] = 0;
                    }
                }
                self.depth -= 1;
                for y in &syms {
                    self.sk_forced.remove(&(*y, a.clone()));
                }
                let vals = found.unwrap_or_else(|| doms.iter().map(|d| d[0]).collect());
                for (y, v) in syms.iter().zip(&vals) {
                    self.memo.insert((*y, a.clone()), *v);
                }
                vals[k]
            }
        };
        if v != Val::U {
            self.memo.insert((f, a), v);
        }
        v
    }
}
