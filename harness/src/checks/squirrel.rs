//! C14: a problem exported by Squirrel means the same once it went through the JSON front-end.
use super::cells::{execute, inconsistency, mutate, step_part, writes};
use super::goal::{closed, known_messages};
use super::*;
use crate::eval::Ev;
use crate::gen::*;
use crate::model::*;
use crate::proto::*;
use crate::run::*;
use crate::smt::Problem;
use std::collections::HashMap;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C14",
        level: "exploration",
        rule: "a case is non-trivial when a trace with at least one step besides init was judged and every emitted assertion got a definite truth value in it, or the world was excluded",
        families: vec![fam("systems", 5000, 150_000, |s| case(s, false)), fam("small", 5000, 120_000, |s| case(s, true))],
    }
}

// ---- terms ----
fn subst(t: &Term, e: &HashMap<usize, Term>) -> Term {
    let many = |v: &Vec<Term>| v.iter().map(|x| subst(x, e)).collect::<Vec<_>>();
    let one = |x: &Term| Box::new(subst(x, e));
    match t {
        Term::Var(i) => e.get(i).cloned().unwrap_or(Term::Var(*i)),
        Term::Fun(f, a) => Term::Fun(*f, many(a)),
        Term::Not(x) => Term::Not(one(x)),
        Term::Op(o, v) => Term::Op(*o, many(v)),
        Term::If(b) => Term::If(Box::new((subst(&b.0, e), subst(&b.1, e), subst(&b.2, e)))),
        Term::Find(v, b) => Term::Find(v.clone(), Box::new((subst(&b.0, e), subst(&b.1, e), subst(&b.2, e)))),
        Term::Let(v, b) => {
            let mut a = subst(&b.0, e);
            if v.sort == Sort::Step {
                a = plain_step(a);
            }
            let mut e2 = e.clone();
            e2.insert(v.id, a);
            subst(&b.1, &e2)
        }
        Term::Q(q, v, b) => Term::Q(*q, v.clone(), one(b)),
        Term::MsgM(s, a) => Term::MsgF(Box::new(Term::Step(*s, many(a)))),
        Term::CondM(s, a) => Term::CondF(Box::new(Term::Step(*s, many(a)))),
        Term::Step(s, a) => Term::Step(*s, many(a)),
        Term::Pred(x) => Term::Pred(one(x)),
        Term::Input(x) => Term::Input(one(x)),
        Term::MsgF(x) => Term::MsgF(one(x)),
        Term::CondF(x) => Term::CondF(one(x)),
        Term::ExecF(x) => Term::ExecF(one(x)),
        Term::Happens(x) => Term::Happens(one(x)),
        Term::Lt(b) => Term::Lt(Box::new((subst(&b.0, e), subst(&b.1, e)))),
        Term::Leq(b) => Term::Leq(Box::new((subst(&b.0, e), subst(&b.1, e)))),
        Term::Gt(b) => Term::Gt(Box::new((subst(&b.0, e), subst(&b.1, e)))),
        Term::Cell(c, a, s) => Term::Cell(*c, many(a), one(s)),
        Term::True | Term::False | Term::Empty | Term::In | Term::Init | Term::Macro(..) => t.clone(),
    }
}
/// the language has no conditional steps inside messages, where an inlined definition may end up
fn plain_step(t: Term) -> Term {
    match t {
        Term::If(b) => plain_step(b.1),
        Term::Pred(x) => Term::Pred(Box::new(plain_step(*x))),
        t => t,
    }
}
fn is_msg(p: &Proto, t: &Term) -> bool {
    match t {
        Term::Fun(f, _) => p.funs[*f].out != Sort::Bool,
        Term::Empty | Term::In | Term::Input(_) | Term::MsgF(_) | Term::Cell(..) | Term::Find(..) => true,
        Term::If(b) => is_msg(p, &b.1),
        Term::Var(i) => p.var_sorts[*i] == Sort::Msg,
        _ => false,
    }
}
/// put some tuples and projections around messages
fn tuples(p: &Proto, s: &mut Src, t: Term) -> Term {
    let t = match t {
        Term::Fun(f, a) => Term::Fun(f, a.into_iter().map(|x| tuples(p, s, x)).collect()),
        Term::Not(x) => Term::Not(Box::new(tuples(p, s, *x))),
        Term::Op(o, v) => Term::Op(o, v.into_iter().map(|x| tuples(p, s, x)).collect()),
        Term::If(b) => Term::If(Box::new((tuples(p, s, b.0), tuples(p, s, b.1), tuples(p, s, b.2)))),
        Term::Find(v, b) => Term::Find(v, Box::new((tuples(p, s, b.0), tuples(p, s, b.1), tuples(p, s, b.2)))),
        Term::Q(q, v, b) => Term::Q(q, v, Box::new(tuples(p, s, *b))),
        t => t,
    };
    if is_msg(p, &t) && !matches!(t, Term::If(_)) && s.chance(1, 7) {
        let n = s.range(1, 3);
        if s.chance(1, 2) {
            let k = s.below(n);
            let mut out = Term::Empty;
            for i in (0..n).rev() {
                let x = if i == k { t.clone() } else if s.chance(1, 2) { Term::Empty } else { Term::Fun(FAIL, vec![]) };
                out = Term::Fun(PAIR, vec![x, out]);
            }
            if s.chance(1, 2) {
                let i = if s.chance(2, 3) { k } else { s.below(n) };
                proj(i, out)
            } else {
                out
            }
        } else {
            proj(n - 1, t)
        }
    } else {
        t
    }
}
fn proj(i: usize, t: Term) -> Term {
    Term::Fun(FST, vec![(0..i).fold(t, |t, _| Term::Fun(SND, vec![t]))])
}
const PAIR: usize = 0;
const FST: usize = 1;
const SND: usize = 2;
const FAIL: usize = 3;

// ---- control flow ----
/// one layer: which parallel branch, how many indices; which exclusive branch, how many indices
type Layer = (usize, usize, usize, usize);
struct Flow {
    shapes: Vec<Vec<Layer>>,
    /// indices that are those of an earlier step
    alias: HashMap<usize, usize>,
}
fn split(s: &mut Src, n: usize, par: usize, sum: usize) -> Vec<Layer> {
    // n indices over one or two layers
    if s.chance(1, 4) {
        let a = s.range(0, n);
        let b = s.range(0, n - a);
        let (c, d) = (n - a - b, 0);
        if s.chance(1, 2) { vec![(par, a, sum, b), (0, c, 0, d)] } else { vec![(par, a, sum, b), (0, d, 0, c)] }
    } else {
        let a = s.range(0, n);
        vec![(par, a, sum, n - a)]
    }
}
fn width(l: &[Layer]) -> usize {
    l.iter().map(|x| x.1 + x.3).sum()
}
fn flow(p: &Proto, s: &mut Src) -> Flow {
    let mut fl = Flow { shapes: vec![], alias: HashMap::new() };
    for (k, st) in p.steps.iter().enumerate() {
        if st.name == "init" {
            fl.shapes.push(vec![]);
            continue;
        }
        let n = st.params.len();
        let mut chosen = None;
        if k > 0 && s.chance(3, 4) {
            let q = s.below(k);
            if p.steps[q].name != "init" {
                let base = fl.shapes[q].clone();
                let seq = s.chance(1, 2);
                // how many indices are shared
                let m = if seq { width(&base) } else { let l = base[base.len() - 1]; width(&base) - l.3 };
                let same = m <= n && (0..m).all(|i| p.steps[q].params[i].sort == st.params[i].sort);
                if same {
                    let mut sh = base.clone();
                    if seq {
                        // branch k+1: never the layer of another step
                        sh.extend(split(s, n - m, 100 + k, 0));
                    } else {
                        let l = sh.pop().unwrap();
                        let rest = split(s, n - m, l.0, 100 + k);
                        // the first layer keeps the shared indices
                        let (a, b) = (rest[0].1, rest[0].3);
                        sh.push((l.0, l.1, 100 + k, a + b));
                        sh.extend(rest[1..].iter().copied());
                    }
                    for i in 0..m {
                        let v = p.steps[q].params[i].id;
                        let v = fl.alias.get(&v).copied().unwrap_or(v);
                        fl.alias.insert(st.params[i].id, v);
                    }
                    chosen = Some(sh);
                }
            }
        }
        fl.shapes.push(chosen.unwrap_or_else(|| { let z = s.below(2); split(s, n, k, z) }));
    }
    fl
}
/// what the control flow says about the order of the steps
fn flow_orders(p: &mut Proto, fl: &Flow) {
    for a in 0..p.steps.len() {
        for b in 0..p.steps.len() {
            if a == b || p.steps[a].name == "init" || p.steps[b].name == "init" {
                continue;
            }
            let (x, y) = (&fl.shapes[a], &fl.shapes[b]);
            let same = x.iter().zip(y).take_while(|(l, r)| l == r).count();
            let shared: usize = width(&x[..same]);
            let var = |p: &mut Proto, st: usize| -> Vec<Var> { let ps = p.steps[st].params.clone(); ps.iter().map(|v| p.new_var("v", v.sort)).collect() };
            let t = |vs: &[Var]| vs.iter().map(|v| Term::Var(v.id)).collect::<Vec<_>>();
            if same == x.len() && y.len() > x.len() {
                let vs = var(p, b);
                let l = Term::Step(a, t(&vs[..shared]));
                let r = Term::Step(b, t(&vs));
                p.orders.push(OrderD { vars: vs, guard: None, l, r, kind: OrdKind::Lt, braces: false });
            } else if a < b && same < x.len() && same < y.len() && x[same].0 == y[same].0 && x[same].1 == y[same].1 && x[same].2 != y[same].2 {
                let common = shared + x[same].1;
                let va = var(p, a);
                let vb = var(p, b);
                let mut args = va[..common].to_vec();
                args.extend(vb[common..].iter().cloned());
                let mut vars = va.clone();
                vars.extend(vb[common..].iter().cloned());
                let l = Term::Step(a, t(&va));
                let r = Term::Step(b, t(&args));
                p.orders.push(OrderD { vars, guard: None, l, r, kind: OrdKind::Excl, braces: false });
            }
        }
    }
}

// ---- the exported file ----
struct Json<'a> {
    p: &'a Proto,
    names: HashMap<usize, String>,
    noise: std::cell::RefCell<crate::src::Rng>,
    /// per function: 0 = curried arguments, 1 = one tuple, 2 = the last one has a tuple type
    style: &'a [usize],
    projs: (&'static str, &'static str),
    own: std::cell::Cell<Option<usize>>,
    side: std::cell::Cell<Option<bool>>,
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
const NAMES: [&str; 6] = ["i", "j", "i_u", "t_0", "x", "i1"];
/// The names of the indices: those of an earlier step keep them, those of one step are distinct, and different steps may
/// use the same ones.
fn index_names(p: &Proto, fl: &Flow, vars: &[Var]) -> HashMap<usize, String> {
    let mut out: HashMap<usize, String> = HashMap::new();
    let scopes: Vec<Vec<usize>> = p.steps.iter().map(|s| s.params.iter().map(|v| v.id).collect()).chain([vars.iter().map(|v| v.id).collect()]).collect();
    for sc in scopes {
        let mut used: Vec<String> = vec![];
        for id in sc {
            let n = match fl.alias.get(&id) {
                Some(r) => out[r].clone(),
                None => {
                    let mut k = (id * 7 + id / 3) % NAMES.len();
                    while used.iter().any(|u| u == NAMES[k]) {
                        k = (k + 1) % NAMES.len();
                    }
                    NAMES[k].to_string()
                }
            };
            used.push(n.clone());
            out.insert(id, n);
        }
    }
    out
}
impl Json<'_> {
    fn coin(&self, n: u64) -> bool {
        self.noise.borrow_mut().below(n) == 0
    }
    fn path(&self, n: &str) -> String {
        format!(r#"{{"npath":{{"npath":[],"id":0}},"symb":"{n}","id":{}}}"#, crate::src::hash_str(n) % 1000)
    }
    fn sort(&self, s: Sort) -> String {
        match s {
            Sort::Idx(i) if self.p.types[i] == "index" => r#""Index""#.into(),
            Sort::Idx(i) => format!(r#"{{"TBase":{}}}"#, self.path(self.p.types[i].strip_prefix("sort_").unwrap())),
            Sort::Msg | Sort::Name => r#""Message""#.into(),
            Sort::Bool => r#""Boolean""#.into(),
            Sort::Step => r#""Timestamp""#.into(),
        }
    }
    fn var_id(&self, id: usize) -> String {
        let name = self.names.get(&id).cloned().unwrap_or_else(|| format!("v{id}"));
        format!(r#"{{"id":{{"name":"{name}","tag":{}}},"ty":{}}}"#, id + 1, self.sort(self.p.var_sorts[id]))
    }
    fn v(&self, id: usize) -> String {
        format!(r#"{{"Var":{}}}"#, self.var_id(id))
    }
    fn op(&self, f: &str, a: Vec<String>) -> String {
        let h = format!(r#"{{"Fun":{{"symb":{}}}}}"#, self.path(f));
        if a.is_empty() && !self.coin(4) { h } else { format!(r#"{{"App":{{"f":{h},"args":{}}}}}"#, arr(a)) }
    }
    fn name_of(&self, f: usize) -> &str {
        let n = &self.p.funs[f].name;
        n.strip_prefix("fun_").or(n.strip_prefix("name_")).unwrap_or(n)
    }
    fn mac(&self, m: &str, a: Vec<String>, ts: String) -> String {
        format!(r#"{{"Macro":{{"symb":{{"s_symb":{},"s_typ":"Message"}},"args":{},"timestamp":{ts}}}}}"#, self.path(m), arr(a))
    }
    fn act(&self, st: usize, a: Vec<String>) -> String {
        let n = &self.p.steps[st].name;
        format!(r#"{{"Action":{{"symb":{},"args":{}}}}}"#, self.path(n.strip_prefix("step_").unwrap_or(n)), arr(a))
    }
    fn me(&self) -> String {
        let st = self.own.get().expect("input outside of a step");
        self.act(st, self.p.steps[st].params.iter().map(|v| self.v(v.id)).collect())
    }
    fn vars(&self, v: &[Var]) -> String {
        arr(v.iter().map(|v| self.v(v.id)))
    }
    fn diff(&self, l: String, r: String) -> String {
        let a = format!(r#"{{"proj":"{}","term":{l}}}"#, self.projs.0);
        let b = format!(r#"{{"proj":"{}","term":{r}}}"#, self.projs.1);
        format!(r#"{{"Diff":{{"terms":{}}}}}"#, arr(if self.coin(2) { [a, b] } else { [b, a] }))
    }
    fn t(&self, t: &Term) -> String {
        if let (Some(side), true) = (self.side.get(), is_msg(self.p, t)) {
            // what the other system would say here does not matter
            if self.coin(5) {
                self.side.set(None);
                let x = self.t(t);
                self.side.set(Some(side));
                let other = self.op("empty", vec![]);
                return if side { self.diff(other, x) } else { self.diff(x, other) };
            }
        }
        let many = |v: &[Term]| v.iter().map(|x| self.t(x)).collect::<Vec<_>>();
        match t {
            Term::Var(i) => self.v(*i),
            Term::Fun(PAIR, _) => {
                // pair(a, pair(b, empty)) is what a tuple stands for
                let mut el = vec![];
                let mut cur = t;
                while let Term::Fun(PAIR, a) = cur {
                    el.push(&a[0]);
                    cur = &a[1];
                }
                if *cur == Term::Empty && !self.coin(4) {
                    return format!(r#"{{"Tuple":{{"elements":{}}}}}"#, arr(el.iter().map(|x| self.t(x))));
                }
                let Term::Fun(_, a) = t else { unreachable!() };
                self.op("pair", many(a))
            }
            Term::Fun(FST, a) if !self.coin(4) => {
                let mut k = 1;
                let mut cur = &a[0];
                while let Term::Fun(SND, b) = cur {
                    k += 1;
                    cur = &b[0];
                }
                format!(r#"{{"Proj":{{"id":{k},"body":{}}}}}"#, self.t(cur))
            }
            Term::Fun(f, a) => {
                let mut a = many(a);
                if self.style[*f] == 1 && a.len() > 1 {
                    a = vec![format!(r#"{{"Tuple":{{"elements":{}}}}}"#, arr(a))];
                }
                if self.p.funs[*f].sem == Sem::Name {
                    format!(r#"{{"Name":{{"symb":{{"s_symb":{},"s_typ":"Message"}},"args":{}}}}}"#, self.path(self.name_of(*f)), arr(a))
                } else {
                    self.op(self.name_of(*f), a)
                }
            }
            Term::True => self.op("true", vec![]),
            Term::False => self.op("false", vec![]),
            Term::Empty => self.op("empty", vec![]),
            Term::Not(x) => self.op("not", vec![self.t(x)]),
            Term::Op(o, v) => {
                let n = match o {
                    Op::And => "&&",
                    Op::Or => "||",
                    Op::Imp => "=>",
                    Op::Iff => "<=>",
                    Op::Eq => "=",
                    Op::Neq => "<>",
                };
                let mut it = v.iter();
                let first = self.t(it.next().unwrap());
                it.fold(first, |acc, x| self.op(n, vec![acc, self.t(x)]))
            }
            Term::If(b) => self.op("if", vec![self.t(&b.0), self.t(&b.1), self.t(&b.2)]),
            Term::Find(v, b) => format!(r#"{{"Find":{{"vars":{},"condition":{},"success":{},"faillure":{}}}}}"#, self.vars(v), self.t(&b.0), self.t(&b.1), self.t(&b.2)),
            Term::Q(fa, v, b) => format!(r#"{{"Quant":{{"quantificator":"{}","vars":{},"body":{}}}}}"#, if *fa { "ForAll" } else { "Exists" }, self.vars(v), self.t(b)),
            Term::Step(s, a) => self.act(*s, many(a)),
            Term::Init => format!(r#"{{"Action":{{"symb":{},"args":[]}}}}"#, self.path("init")),
            Term::Pred(x) => self.op("pred", vec![self.t(x)]),
            Term::In => self.mac("input", vec![], self.me()),
            Term::Input(x) => self.mac("input", vec![], self.t(x)),
            Term::MsgF(x) => self.mac("output", vec![], self.t(x)),
            Term::CondF(x) => self.mac("cond", vec![], self.t(x)),
            Term::ExecF(x) => self.mac("exec", vec![], self.t(x)),
            Term::Happens(x) => self.op("happens", vec![self.t(x)]),
            Term::Lt(b) => self.op("<", vec![self.t(&b.0), self.t(&b.1)]),
            Term::Leq(b) => self.op("<=", vec![self.t(&b.0), self.t(&b.1)]),
            Term::Gt(b) => self.op(">", vec![self.t(&b.0), self.t(&b.1)]),
            Term::Cell(c, a, s) => self.mac(self.p.cells[*c].name.strip_prefix("fun_").unwrap(), many(a), self.t(s)),
            Term::Let(..) | Term::Macro(..) | Term::MsgM(..) | Term::CondM(..) => unreachable!("expanded before"),
        }
    }
    /// the same place in both systems
    fn two(&self, a: &Term, b: &Term) -> String {
        if a == b {
            return self.t(a);
        }
        match (a, b) {
            (Term::Fun(f, x), Term::Fun(g, y)) if f == g && self.style[*f] == 0 && self.p.funs[*f].sem != Sem::Name => self.op(self.name_of(*f), x.iter().zip(y).map(|(x, y)| self.two(x, y)).collect()),
            (Term::Op(Op::And, x), Term::Op(Op::And, y)) if x.len() == 2 && y.len() == 2 => self.op("&&", vec![self.two(&x[0], &y[0]), self.two(&x[1], &y[1])]),
            _ => {
                self.side.set(Some(false));
                let l = self.t(a);
                self.side.set(Some(true));
                let r = self.t(b);
                self.side.set(None);
                self.diff(l, r)
            }
        }
    }
    fn ftype(&self, args: &[Sort], out: Sort, style: usize) -> String {
        let mut a: Vec<String> = args.iter().map(|s| self.sort(*s)).collect();
        let tup = |v: Vec<String>| format!(r#"{{"Tuple":{{"elements":{}}}}}"#, arr(v));
        if style == 1 && a.len() > 1 {
            a = vec![tup(a)];
        } else if style == 2 && a.len() > 1 && *args.last().unwrap() == Sort::Msg {
            a.pop();
            a.push(tup(vec![r#""Message""#.into(), r#""Message""#.into()]));
        }
        format!(r#"{{"vars":[],"args":{},"out":{}}}"#, arr(a), self.sort(out))
    }
    fn operator(&self, n: &str, ty: String) -> String {
        format!(r#"{{"symb":{},"data":{{"type":{ty},"def":{{"abstract_def":{{"Abstract":"Prefix"}},"associated_fun":[]}}}}}}"#, self.path(n))
    }
    fn action(&self, k: usize, sh: &[Layer], q: &Proto) -> String {
        let st = &self.p.steps[k];
        let o = &q.steps[k];
        self.own.set(Some(k));
        let mut at = 0;
        let mut layers = vec![];
        for l in sh {
            let mut take = |n: usize| {
                let r = arr(st.params[at..at + n].iter().map(|v| self.var_id(v.id)));
                at += n;
                r
            };
            let a = take(l.1);
            let b = take(l.3);
            layers.push(format!(r#"{{"par_choice":[{},{a}],"sum_choice":[{},{b}]}}"#, l.0, l.2));
        }
        let up = st.assigns.iter().map(|a| {
            format!(r#"{{"symb":{},"args":{},"body":{}}}"#, self.path(self.p.cells[a.cell].name.strip_prefix("fun_").unwrap()), arr(a.args.iter().map(|x| self.t(x))), self.t(&a.val))
        });
        let r = format!(
            r#"{{"name":{},"action":{},"input":{c},"indices":{},"condition":{{"vars":[],"term":{}}},"updates":{},"output":{{"channel":{c},"term":{}}},"globals":[]}}"#,
            self.path(st.name.strip_prefix("step_").unwrap_or(&st.name)),
            arr(layers),
            arr(st.params.iter().map(|v| self.var_id(v.id))),
            self.two(&st.cond, &o.cond),
            arr(up),
            self.two(&st.msg, &o.msg),
            c = self.path("ch")
        );
        self.own.set(None);
        r
    }
    fn file(&self, q: &Proto, fl: &Flow, vars: &[Var], hyps: &[Term], goals: (&Term, &Term)) -> String {
        let p = self.p;
        let mut names = vec![];
        let mut ops = vec![];
        for (i, f) in p.funs.iter().enumerate() {
            if f.sem == Sem::Name {
                names.push(format!(r#"{{"symb":{},"data":{}}}"#, self.path(self.name_of(i)), self.ftype(&f.args, Sort::Msg, self.style[i])));
            } else {
                ops.push(self.operator(self.name_of(i), self.ftype(&f.args, f.out, self.style[i])));
            }
        }
        let tv = |a: usize, o: &str| format!(r#"{{"vars":[{{"name":"a","tag":5}}],"args":{},"out":{o}}}"#, arr((0..a).map(|_| r#"{"TVar":{"name":"a","tag":5}}"#.to_string())));
        for (n, a) in [("&&", 2), ("||", 2), ("=>", 2), ("<=>", 2), ("not", 1), ("true", 0), ("false", 0)] {
            ops.push(self.operator(n, self.ftype(&vec![Sort::Bool; a], Sort::Bool, 0)));
        }
        for n in ["=", "<>", "<", "<=", ">"] {
            ops.push(self.operator(n, tv(2, r#""Boolean""#)));
        }
        ops.push(self.operator("if", r#"{"vars":[{"name":"t","tag":1}],"args":["Boolean",{"TVar":{"name":"t","tag":1}},{"TVar":{"name":"t","tag":1}}],"out":{"TVar":{"name":"t","tag":1}}}"#.into()));
        ops.push(self.operator("empty", self.ftype(&[], Sort::Msg, 0)));
        ops.push(self.operator("happens", self.ftype(&[Sort::Step], Sort::Bool, 0)));
        ops.push(self.operator("pred", self.ftype(&[Sort::Step], Sort::Step, 0)));
        let gen = |n: &str, ty: &str, def: &str| format!(r#"{{"symb":{},"data":{{"General":{{"name":{},"default":{def},"tinit":{def},"body":{{"var":{{"id":{{"name":"t","tag":9999}},"ty":"Timestamp"}},"body":{def}}},"rec_ty":"Timestamp","ty":"{ty}"}}}}}}"#, self.path(n), self.path(n));
        let mut macros = vec![
            format!(r#"{{"symb":{},"data":{{"General":"Output"}}}}"#, self.path("output")),
            format!(r#"{{"symb":{},"data":{{"General":"Cond"}}}}"#, self.path("cond")),
            gen("input", "Message", r#"{"Fun":{"symb":{"npath":{"npath":[],"id":0},"symb":"empty","id":4}}}"#),
            gen("exec", "Boolean", r#"{"Fun":{"symb":{"npath":{"npath":[],"id":0},"symb":"true","id":5}}}"#),
        ];
        for c in &p.cells {
            let vs = c.args.iter().enumerate().map(|(k, s)| format!(r#"{{"id":{{"name":"i","tag":{}}},"ty":{}}}"#, 5000 + k, self.sort(*s)));
            macros.push(format!(r#"{{"symb":{},"data":{{"State":{{"arity":{},"type":"Message","init":{{"vars":{},"init":{}}}}}}}}}"#, self.path(c.name.strip_prefix("fun_").unwrap()), c.args.len(), arr(vs), self.op("empty", vec![])));
        }
        let types = p.types.iter().filter(|t| *t != "index").map(|t| format!(r#"{{"symb":{},"data":{}}}"#, self.path(t.strip_prefix("sort_").unwrap()), if self.coin(2) { r#"["Finite","Fixed"]"# } else { r#"["Enum"]"# }));
        let actions = (0..p.steps.len()).map(|k| self.action(k, &fl.shapes[k], q)).collect::<Vec<_>>();
        let query = self.two(goals.0, goals.1);
        format!(
            "{{\"parameters\":{{\"num_retry\":5,\"timeout\":1.0}},\"context\":{{\"query\":{query},\n\"hypotheses\":{},\n\"variables\":{},\n\"actions\":{},\n\"names\":{},\n\"operators\":{},\n\"macros\":{},\n\"types\":{}}}}}",
            arr(hyps.iter().map(|h| self.t(h))),
            arr(vars.iter().map(|v| self.var_id(v.id))),
            actions.join(",\n").replacen("", "[", 1) + "]",
            arr(names),
            arr(ops),
            arr(macros),
            arr(types)
        )
    }
}

// ---- worlds ----
fn quiet_val(w: &mut World, s: &mut Src, d: usize) -> Val {
    let p = w.p.clone();
    if d == 0 || s.chance(1, 3) {
        if s.chance(1, 3) {
            return w.arena.mk(Node::Empty);
        }
        let k = s.below(2) as u32;
        return w.arena.mk(Node::Atk(k));
    }
    let fs: Vec<usize> = (0..p.funs.len()).filter(|i| p.funs[*i].out == Sort::Msg && p.funs[*i].sem != Sem::Name).collect();
    let f = *s.pick(&fs);
    let mut a = vec![];
    for srt in &p.funs[f].args {
        a.push(match srt {
            Sort::Msg => quiet_val(w, s, d - 1),
            Sort::Bool => Val::B(s.chance(1, 2)),
            srt => {
                let dm = w.sort_dom(*srt);
                *s.pick(&dm)
            }
        });
    }
    w.apply(f, &a)
}
/// does a step use what only later steps determine?
fn reads_ahead(w: &mut World) -> bool {
    w.too_early = false;
    for k in 1..w.nsteps {
        (w.ready, w.ready_cells, w.ready_msgs) = (k, k, k);
        writes(w, k);
        step_part(w, k);
    }
    (w.ready, w.ready_cells, w.ready_msgs) = (usize::MAX, usize::MAX, usize::MAX);
    w.too_early
}
fn judge(p: &Arc<Proto>, smt: &str, s: &mut Src, c: &mut Case, text: &str) -> Result<bool, (String, String)> {
    let prob = Problem::parse(smt).map_err(|e| ("unparsable".to_string(), e))?;
    if let Some(e) = prob.errors.first() {
        return Err(("ill-sorted".into(), e.clone()));
    }
    let mut decided = false;
    let rounds = s.range(2, 6);
    for _ in 0..rounds {
        let mut w = gen_world(p, s, 2, 4);
        if s.chance(3, 4) {
            w = repair_orders(w);
        }
        for k in 0..w.nsteps {
            w.input[k] = quiet_val(&mut w, s, 2);
        }
        let (c0, m0) = (w.cells[0].clone(), w.msg[0]);
        let mut keys: Vec<_> = c0.keys().cloned().collect();
        keys.sort();
        for key in keys {
            let v = quiet_val(&mut w, s, 2);
            for k in 0..w.nsteps {
                w.cells[k].insert(key.clone(), v);
            }
        }
        if s.chance(1, 2) {
            w.cells[0] = c0;
        }
        w.msg[1] = m0;
        w.ambiguous_find = false;
        execute(&mut w);
        if reads_ahead(&mut w) {
            c.label("run skipped: reads the future");
            continue;
        }
        let mutated = s.chance(1, 4);
        if mutated {
            mutate(&mut w, s);
        }
        known_messages(&mut w);
        let mut why = time_ok(&mut w).err();
        if why.is_none() {
            why = inconsistency(&mut w, true, true);
        }
        if mutated && why.is_none() {
            continue;
        }
        let goal = closed(&mut w, p.query.as_ref().unwrap());
        if goal && why.is_none() {
            why = Some("the query holds".into());
        }
        if w.ambiguous_find {
            c.label("world skipped: several witnesses of a find");
            continue;
        }
        if w.cells[0] != w.cells[1] && (2..w.nsteps).len() == 0 && why.is_none() && writes(&mut w, 1).is_empty() {
            continue;
        }
        let long = w.nsteps >= 3;
        let desc = format!(
            "{}; in {:?}; cells {:?}; out {:?}; guards {:?}; exec {:?}",
            w.describe(),
            w.input.iter().map(|v| w.show(*v)).collect::<Vec<_>>(),
            (0..w.nsteps).map(|k| { let mut v: Vec<_> = w.cells[k].iter().map(|(a, b)| (a.clone(), w.show(*b))).collect(); v.sort(); v }).collect::<Vec<_>>(),
            w.msg.iter().map(|v| w.show(*v)).collect::<Vec<_>>(),
            w.cond,
            w.exec
        );
        let known = w.universe.clone();
        let mut ev = Ev::new(&prob, w, 1);
        ev.limit = Some(20_000);
        ev.relative = true;
        ev.universe = if ev.symbolic { ev.some_terms() } else { known };
        let mut bad = None;
        let mut unk = None;
        for a in &prob.asserts {
            match ev.assertion(a) {
                Val::B(true) => {}
                Val::B(false) => {
                    bad = Some(a.src.clone());
                    break;
                }
                _ => unk = Some(a.src.clone()),
            }
        }
        c.sample = format!("{text}\nas an input file of the tool:\n{}\nworld: {desc}\nreference: {why:?}", p.text());
        match (&why, bad) {
            (None, Some(a)) => return Err(("countermodel-excluded".into(), format!("the world is a run of the exported protocol in which the hypotheses hold and the query fails, but the emitted problem contains {a}"))),
            (Some(y), None) => {
                if let Some(u) = unk {
                    c.label(format!("undecided: {}", u.chars().take(70).collect::<String>()));
                    continue;
                }
                return Err(("wrong-world-allowed".into(), format!("{y}, but every emitted assertion is true")));
            }
            (None, None) => {
                c.label(if unk.is_some() { "countermodel kept (some assertion undecided)" } else { "countermodel kept" });
                decided |= long && unk.is_none();
            }
            (Some(y), Some(_)) => {
                c.label(format!("excluded: {}", if y.starts_with("the query") { "the query holds" } else if y.starts_with("a declared order") { "order" } else { "not a run" }));
                decided |= long;
            }
        }
    }
    Ok(decided)
}
pub fn case(s: &mut Src, small: bool) -> Case {
    let base = Cfg { max_macros: 0, max_orders: 0, init_step: true, multi_assign: true, ..Cfg::full() };
    let cfg = if small { Cfg { max_types: 1, max_steps: 3, max_cells: 1, depth: 2, ..base } } else { base };
    let mut g = Gen::new(s, cfg);
    g.add_fun("pair", vec![Sort::Msg, Sort::Msg], Sort::Msg, Sem::Pair);
    g.add_fun("fst", vec![Sort::Msg], Sort::Msg, Sem::Fst(PAIR));
    g.add_fun("snd", vec![Sort::Msg], Sort::Msg, Sem::Snd(PAIR));
    g.add_fun("fail", vec![], Sort::Msg, Sem::Free);
    g.protocol();
    g.p.style = Style::default();
    if !g.p.steps.iter().any(|x| x.name == "init") {
        g.p.steps.push(StepD { name: "init".into(), params: vec![], cond: Term::True, msg: Term::Empty, assigns: vec![] });
    }
    // names as the front-end writes them
    for f in &mut g.p.funs {
        if !["pair", "fst", "snd", "fail"].contains(&f.name.as_str()) {
            f.name = format!("{}_{}", if f.sem == Sem::Name { "name" } else { "fun" }, f.name);
        }
    }
    for t in &mut g.p.types {
        if t != "index" {
            *t = format!("sort_{t}");
        }
    }
    for c in &mut g.p.cells {
        c.name = format!("fun_{}", c.name);
    }
    for st in &mut g.p.steps {
        if st.name != "init" {
            st.name = format!("step_{}", st.name);
        }
    }
    // goal
    let d = g.cfg.depth;
    let mut ctx = g.open_ctx();
    let mut sorts: Vec<Sort> = (0..g.p.types.len()).filter(|_| g.s.chance(1, 2)).map(Sort::Idx).collect();
    if g.s.chance(2, 3) {
        sorts.push(Sort::Step);
    }
    if g.s.chance(1, 6) {
        sorts.push(Sort::Msg);
    }
    let vars = g.fresh_many(&sorts);
    for v in &vars {
        ctx = ctx.bind(v);
    }
    let nh = g.s.weighted(&[3, 3, 1]);
    let hyps: Vec<Term> = (0..nh).map(|_| g.boolean(&ctx, d)).collect();
    let goal = g.boolean(&ctx, d);
    // the other system
    let other = if g.s.chance(1, 4) {
        let k = g.s.below(g.p.steps.len());
        let (params, init) = (g.p.steps[k].params.clone(), g.p.steps[k].name == "init");
        let mut cs = Ctx { ta: true, nsteps: if init { 0 } else { k }, step: Some((k, params.clone())), ..Default::default() };
        if init {
            cs.step = None;
        }
        for v in &params {
            cs = cs.bind(v);
        }
        Some(match g.s.below(if init { 1 } else { 3 }) {
            0 => (0, k, g.msg(&cs, 2)),
            1 => (1, k, g.boolean(&cs, 2)),
            _ => (2, k, g.boolean(&ctx, d)),
        })
    } else {
        None
    };
    let mut p = std::mem::take(&mut g.p);
    let s = &mut *g.s;
    let e = HashMap::new();
    for k in 0..p.steps.len() {
        let st = p.steps[k].clone();
        let cond = tuples(&p, s, subst(&st.cond, &e));
        let msg = tuples(&p, s, subst(&st.msg, &e));
        let mut assigns = vec![];
        for a in &st.assigns {
            let mut a = a.clone();
            // the same fresh index twice
            if a.fresh.len() == 2 && a.fresh[0].sort == a.fresh[1].sort && s.chance(1, 2) {
                let (x, y) = (a.fresh[0].id, a.fresh[1].id);
                let m: HashMap<usize, Term> = [(y, Term::Var(x))].into();
                a.args = a.args.iter().map(|t| subst(t, &m)).collect();
                a.val = subst(&a.val, &m);
                a.fresh.pop();
            }
            let val = tuples(&p, s, subst(&a.val, &e));
            assigns.push(Assign { val, ..a });
        }
        p.steps[k].cond = cond;
        p.steps[k].msg = msg;
        p.steps[k].assigns = assigns;
    }
    let hyps: Vec<Term> = hyps.iter().map(|h| { let t = subst(h, &e); tuples(&p, s, t) }).collect();
    let goal = { let t = subst(&goal, &e); tuples(&p, s, t) };
    let fl = flow(&p, s);
    let mut goal2 = goal.clone();
    let mut q = None;
    if let Some((kind, k, t)) = &other {
        let t = subst(t, &e);
        let mut p2 = p.clone();
        match kind {
            0 => {
                let whole = s.chance(1, 3);
                let m = p.steps[*k].msg.clone();
                if whole {
                    p2.steps[*k].msg = t;
                } else {
                    p2.steps[*k].msg = Term::Fun(PAIR, vec![m.clone(), t]);
                    p.steps[*k].msg = Term::Fun(PAIR, vec![m, Term::Empty]);
                }
            }
            1 => {
                let m = p.steps[*k].cond.clone();
                p2.steps[*k].cond = Term::Op(Op::And, vec![m.clone(), t.clone()]);
                p.steps[*k].cond = Term::Op(Op::And, vec![m, Term::Not(Box::new(t))]);
            }
            _ => goal2 = t,
        }
        q = Some(p2);
    }
    let close = |p: &mut Proto, g: &Term| {
        flow_orders(p, &fl);
        let mut h = hyps.clone();
        h.insert(0, Term::True);
        let b = Term::Op(Op::Imp, vec![Term::Op(Op::And, h), g.clone()]);
        p.query = Some(if vars.is_empty() { b } else { Term::Q(true, vars.clone(), Box::new(b)) });
        if p.query.as_ref().is_some() && hyps.is_empty() {
            let b = Term::Op(Op::Imp, vec![Term::True, g.clone()]);
            p.query = Some(if vars.is_empty() { b } else { Term::Q(true, vars.clone(), Box::new(b)) });
        }
    };
    let style: Vec<usize> = p.funs.iter().map(|f| if f.args.len() > 1 && f.name != "pair" { s.below(3) } else { 0 }).collect();
    let noise = s.below(1 << 16) as u64;
    let projs = if s.chance(1, 2) { ("left", "right") } else { ("A", "B") };
    let text = {
        let j = Json { p: &p, names: index_names(&p, &fl, &vars), noise: crate::src::Rng::new(noise).into(), style: &style, projs, own: None.into(), side: None.into() };
        j.file(q.as_ref().unwrap_or(&p), &fl, &vars, &hyps, (&goal, &goal2))
    };
    close(&mut p, &goal);
    let mut systems = vec![Arc::new(p)];
    if let Some(mut q) = q {
        close(&mut q, &goal2);
        // two equal systems are exported as one
        systems.push(Arc::new(q));
    }
    let mut c = Case::new(text.clone());
    let d = Scratch::new();
    d.write("p.json", &text);
    let out = d.0.join("out");
    if std::fs::create_dir(&out).is_err() {
        return c.err("no output folder".to_string());
    }
    let a: Vec<String> = ["--input-format", "squirrel-json", "p.json", "to-file", "--cvc5", "-o", "out"].iter().map(|x| x.to_string()).collect();
    let o = match run(&tool(), &a, &d.0, &Opts::default()) {
        Ok(o) => o,
        Err(e) => return c.err(e),
    };
    if o.timed_out {
        return c.err(format!("watchdog: the tool did not finish on\n{text}"));
    }
    if o.code != Some(0) {
        c.sample = format!("{text}\nas an input file of the tool:\n{}", systems[0].text());
        return c.fail("rejected", format!("a well-typed exported problem is rejected: {}", reason(&o)));
    }
    let n = systems.len();
    let mut all = true;
    for (i, p) in systems.iter().enumerate() {
        let same = n == 2 && !text.contains("\"Diff\"");
        let Some(smt) = d.read(&format!("out/{}", if same { 0 } else { i })) else { return c.fail("output-missing", format!("no file for system {i}")) };
        match judge(p, &smt, s, &mut c, &text) {
            Ok(x) => all &= x,
            Err((sig, m)) => return c.fail(sig, if n == 2 { format!("system {i}: {m}") } else { m }),
        }
    }
    c.label(if n == 2 { "two systems" } else { "one system" });
    c.nontrivial_if(all);
    c
}
