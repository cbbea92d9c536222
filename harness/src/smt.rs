//! The emitted problem: declarations, a sort checker, and terms with resolved symbols.
use crate::sexp::{parse, Sx};
use std::collections::HashMap;

pub type SymId = usize;
pub type SortName = String;

#[derive(Clone, Debug)]
pub struct Sym {
    pub name: String,
    pub args: Vec<SortName>,
    pub out: SortName,
    pub kind: SymKind,
}
#[derive(Clone, Debug, PartialEq)]
pub enum SymKind {
    Fun,
    Ctor,
    /// selector k of constructor
    Sel(SymId, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Var(usize),
    App(SymId, Vec<T>),
    True,
    False,
    Not(Box<T>),
    And(Vec<T>),
    Or(Vec<T>),
    Imp(Vec<T>),
    Eq(Vec<T>),
    Distinct(Vec<T>),
    Ite(Box<(T, T, T)>),
    Q(bool, Vec<(usize, SortName)>, Box<T>),
}
#[derive(Clone, Debug)]
pub struct Assertion {
    pub cmd: String,
    pub section: String,
    pub t: T,
    /// `t` with its quantifiers pushed inwards
    pub mini: T,
    pub src: String,
    pub slots: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Problem {
    pub sorts: Vec<SortName>,
    pub alias: HashMap<String, String>,
    pub datatypes: HashMap<String, Vec<SymId>>,
    pub syms: Vec<Sym>,
    pub by_name: HashMap<String, SymId>,
    pub asserts: Vec<Assertion>,
    pub others: Vec<(String, Sx)>,
    pub n_check_sat: usize,
    /// declaration/sort problems (empty = well-formed)
    pub errors: Vec<String>,
}

const RESERVED: &[&str] = &["true", "false", "and", "or", "not", "=>", "=", "distinct", "ite", "xor", "forall", "exists", "let", "match", "par", "_", "!", "as"];

struct Scope {
    vars: Vec<(String, usize, SortName)>,
    next: usize,
}

impl Problem {
    pub fn norm(&self, s: &str) -> String {
        let mut s = s.to_string();
        let mut n = 0;
        while let Some(t) = self.alias.get(&s) {
            s = t.clone();
            n += 1;
            if n > 20 {
                break;
            }
        }
        s
    }
    fn sort_known(&self, s: &str) -> bool {
        let n = self.norm(s);
        n == "Bool" || self.sorts.contains(&n)
    }
    fn add_sym(&mut self, s: Sym) -> SymId {
        if RESERVED.contains(&s.name.as_str()) {
            self.errors.push(format!("reserved symbol `{}` declared", s.name));
        }
        if self.by_name.contains_key(&s.name) {
            self.errors.push(format!("symbol `{}` declared twice", s.name));
        }
        let id = self.syms.len();
        self.by_name.insert(s.name.clone(), id);
        self.syms.push(s);
        id
    }
    pub fn parse(text: &str) -> Result<Problem, String> {
        let sx = parse(text)?;
        let mut p = Problem::default();
        for (section, e) in sx {
            let l = match e.list() {
                Some(l) if !l.is_empty() => l.to_vec(),
                _ => return Err(format!("bad command {}", e.show())),
            };
            let cmd = l[0].atom().unwrap_or("").to_string();
            match cmd.as_str() {
                "declare-sort" => {
                    let n = l.get(1).and_then(|x| x.atom()).ok_or("declare-sort")?.to_string();
                    if p.sorts.contains(&n) || p.alias.contains_key(&n) {
                        p.errors.push(format!("sort {n} declared twice"));
                    }
                    p.sorts.push(n);
                }
                "define-sort" => {
                    let n = l.get(1).and_then(|x| x.atom()).ok_or("define-sort")?.to_string();
                    let t = l.get(3).and_then(|x| x.atom()).ok_or("define-sort body")?.to_string();
                    if !p.sort_known(&t) {
                        p.errors.push(format!("define-sort {n} uses unknown sort {t}"));
                    }
                    if p.sorts.contains(&n) || p.alias.contains_key(&n) {
                        p.errors.push(format!("sort {n} declared twice"));
                    }
                    p.alias.insert(n, t);
                }
                "declare-datatypes" => {
                    let heads = l.get(1).and_then(|x| x.list()).ok_or("declare-datatypes heads")?;
                    let bodies = l.get(2).and_then(|x| x.list()).ok_or("declare-datatypes bodies")?;
                    if heads.is_empty() {
                        p.errors.push("empty declare-datatypes".into());
                    }
                    if heads.len() != bodies.len() {
                        p.errors.push("declare-datatypes: heads/bodies mismatch".into());
                    }
                    let names: Vec<String> = heads.iter().filter_map(|h| h.list().and_then(|h| h.first()).and_then(|x| x.atom()).map(|s| s.to_string())).collect();
                    for n in &names {
                        if p.sorts.contains(n) || p.alias.contains_key(n) {
                            p.errors.push(format!("sort {n} declared twice"));
                        }
                        p.sorts.push(n.clone());
                    }
                    for (n, b) in names.iter().zip(bodies) {
                        let ctors = b.list().ok_or("datatype body")?;
                        if ctors.is_empty() {
                            p.errors.push(format!("datatype {n} has no constructor"));
                        }
                        let mut ids = vec![];
                        for c in ctors {
                            let c = c.list().ok_or("constructor")?;
                            let cn = c.first().and_then(|x| x.atom()).ok_or("constructor name")?.to_string();
                            let mut args = vec![];
                            let mut sels = vec![];
                            for a in &c[1..] {
                                let a = a.list().ok_or("selector")?;
                                if a.len() != 2 {
                                    return Err("selector".into());
                                }
                                sels.push(a[0].atom().unwrap_or("").to_string());
                                args.push(a[1].atom().unwrap_or("").to_string());
                            }
                            let id = p.add_sym(Sym { name: cn, args: args.clone(), out: n.clone(), kind: SymKind::Ctor });
                            ids.push(id);
                            for (k, (s, a)) in sels.into_iter().zip(args).enumerate() {
                                p.add_sym(Sym { name: s, args: vec![n.clone()], out: a, kind: SymKind::Sel(id, k) });
                            }
                        }
                        p.datatypes.insert(n.clone(), ids);
                    }
                    // argument sorts may be declared later in the file only if they are datatypes of this block
                }
                "declare-fun" | "declare-const" => {
                    let n = l.get(1).and_then(|x| x.atom()).ok_or("declare-fun")?.to_string();
                    let (args, out) = if cmd == "declare-const" {
                        (vec![], l.get(2))
                    } else {
                        (l.get(2).and_then(|x| x.list()).ok_or("declare-fun args")?.iter().map(|x| x.atom().unwrap_or("?").to_string()).collect(), l.get(3))
                    };
                    let out = out.and_then(|x| x.atom()).ok_or("declare-fun out")?.to_string();
                    let args: Vec<String> = args;
                    for s in args.iter().chain([&out]) {
                        if !p.sort_known(s) {
                            p.errors.push(format!("unknown sort {s} in declaration of {n}"));
                        }
                    }
                    p.add_sym(Sym { name: n, args, out, kind: SymKind::Fun });
                }
                "check-sat" => p.n_check_sat += 1,
                c if c.starts_with("assert") && c != "assert-rewrite" => {
                    let body = l.last().unwrap().clone();
                    let mut sc = Scope { vars: vec![], next: 0 };
                    match p.term(&body, &mut sc) {
                        Ok((t, s)) => {
                            if p.norm(&s) != "Bool" {
                                p.errors.push(format!("assertion of sort {s}: {}", body.show()));
                            }
                            let slots = sc.next;
                            let t = if cmd == "assert-not" { T::Not(Box::new(t)) } else { t };
                            p.asserts.push(Assertion { cmd: cmd.clone(), section: section.clone(), mini: miniscope(&t), t, src: e.show(), slots });
                        }
                        Err(m) => p.errors.push(format!("{m} in {}", body.show())),
                    }
                    if p.n_check_sat > 0 {
                        p.errors.push("assertion after check-sat".into());
                    }
                }
                "declare-rewrite" => {
                    // forall vars. (op l r): the two sides mean the same
                    if let Err(m) = p.rewrite(&l, &section, &e) {
                        p.errors.push(format!("{m} in {}", e.show()));
                    }
                    p.others.push((cmd, e))
                }
                _ => p.others.push((cmd, e)),
            }
        }
        // sorts of datatype fields
        let mut errs = vec![];
        for s in &p.syms {
            for a in s.args.iter().chain([&s.out]) {
                if !p.sort_known(a) {
                    errs.push(format!("unknown sort {a} in {}", s.name));
                }
            }
        }
        for e in errs {
            if !p.errors.contains(&e) {
                p.errors.push(e)
            }
        }
        Ok(p)
    }

    fn rewrite(&mut self, l: &[Sx], section: &str, e: &Sx) -> Result<(), String> {
        let q = l.get(1).and_then(|x| x.list()).ok_or("bad rewrite")?;
        if q.len() != 3 || q[0].atom() != Some("forall") {
            return Err("bad rewrite".into());
        }
        let novar = q[1].list().is_some_and(|v| v.is_empty());
        let mut sc = Scope { vars: vec![], next: 0 };
        let body = if novar { q[2].clone() } else { l[1].clone() };
        let (t, s) = self.term(&body, &mut sc)?;
        if self.norm(&s) != "Bool" {
            return Err(format!("rewrite of sort {s}"));
        }
        fn eq(t: T) -> Result<T, String> {
            match t {
                T::Q(fa, v, b) => Ok(T::Q(fa, v, Box::new(eq(*b)?))),
                T::App(_, a) | T::Eq(a) if a.len() == 2 => Ok(T::Eq(a)),
                _ => Err("a rewrite rule with no two sides".into()),
            }
        }
        let t = eq(t)?;
        self.asserts.push(Assertion { cmd: "declare-rewrite".into(), section: section.to_string(), mini: miniscope(&t), t, src: e.show(), slots: sc.next });
        Ok(())
    }
    fn term(&self, e: &Sx, sc: &mut Scope) -> Result<(T, SortName), String> {
        match e {
            Sx::A(a) => {
                if let Some((_, i, s)) = sc.vars.iter().rev().find(|v| v.0 == *a) {
                    return Ok((T::Var(*i), s.clone()));
                }
                match a.as_str() {
                    "true" => return Ok((T::True, "Bool".into())),
                    "false" => return Ok((T::False, "Bool".into())),
                    _ => {}
                }
                self.app(a, vec![])
            }
            Sx::L(l) => {
                let h = l.first().ok_or("empty application")?;
                let h = h.atom().ok_or_else(|| format!("bad head {}", h.show()))?;
                if let "forall" | "exists" = h {
                    if l.len() != 3 {
                        return Err("bad quantifier".into());
                    }
                    let vs = l[1].list().ok_or("bad binder list")?;
                    if vs.is_empty() {
                        return Err("quantifier binding no variable".into());
                    }
                    let depth = sc.vars.len();
                    let mut out = vec![];
                    for v in vs {
                        let v = v.list().ok_or("bad binder")?;
                        let (n, s) = (v[0].atom().ok_or("binder")?, v[1].atom().ok_or("binder sort")?);
                        if !self.sort_known(s) {
                            return Err(format!("unknown sort {s}"));
                        }
                        if sc.vars[depth..].iter().any(|x| x.0 == n) {
                            return Err(format!("variable {n} bound twice by one quantifier"));
                        }
                        let id = sc.next;
                        sc.next += 1;
                        sc.vars.push((n.to_string(), id, s.to_string()));
                        out.push((id, self.norm(s)));
                    }
                    let r = self.term(&l[2], sc);
                    sc.vars.truncate(depth);
                    let (b, s) = r?;
                    if self.norm(&s) != "Bool" {
                        return Err(format!("quantifier body of sort {s}"));
                    }
                    return Ok((T::Q(h == "forall", out, Box::new(b)), "Bool".into()));
                }
                let mut args = vec![];
                let mut sorts = vec![];
                for x in &l[1..] {
                    let (t, s) = self.term(x, sc)?;
                    args.push(t);
                    sorts.push(self.norm(&s));
                }
                let allb = |n: &str| -> Result<(), String> {
                    if sorts.iter().all(|s| s == "Bool") { Ok(()) } else { Err(format!("non-boolean argument of {n}: {sorts:?}")) }
                };
                match h {
                    "and" | "or" => {
                        allb(h)?;
                        if args.is_empty() {
                            return Err(format!("`{h}` without argument"));
                        }
                        Ok((if h == "and" { T::And(args) } else { T::Or(args) }, "Bool".into()))
                    }
                    "=>" => {
                        allb(h)?;
                        if args.len() < 2 {
                            return Err("`=>` with fewer than two arguments".into());
                        }
                        Ok((T::Imp(args), "Bool".into()))
                    }
                    "not" => {
                        allb(h)?;
                        if args.len() != 1 {
                            return Err("`not` arity".into());
                        }
                        Ok((T::Not(Box::new(args.pop().unwrap())), "Bool".into()))
                    }
                    "=" | "distinct" => {
                        if args.len() < 2 {
                            return Err(format!("`{h}` arity"));
                        }
                        if sorts.iter().any(|s| *s != sorts[0]) {
                            return Err(format!("`{h}` on different sorts {sorts:?}"));
                        }
                        Ok((if h == "=" { T::Eq(args) } else { T::Distinct(args) }, "Bool".into()))
                    }
                    "ite" => {
                        if args.len() != 3 || sorts[0] != "Bool" || sorts[1] != sorts[2] {
                            return Err(format!("bad ite {sorts:?}"));
                        }
                        let mut it = args.into_iter();
                        Ok((T::Ite(Box::new((it.next().unwrap(), it.next().unwrap(), it.next().unwrap()))), sorts[1].clone()))
                    }
                    "let" | "match" => Err(format!("unsupported {h}")),
                    _ => {
                        if sc.vars.iter().any(|v| v.0 == h) {
                            return Err(format!("variable {h} applied"));
                        }
                        let (t, o) = self.app(h, args)?;
                        if let T::App(id, _) = &t {
                            let want: Vec<String> = self.syms[*id].args.iter().map(|s| self.norm(s)).collect();
                            if want != sorts {
                                return Err(format!("`{h}` expects {want:?}, got {sorts:?}"));
                            }
                        }
                        Ok((t, o))
                    }
                }
            }
        }
    }
    fn app(&self, n: &str, args: Vec<T>) -> Result<(T, SortName), String> {
        let id = *self.by_name.get(n).ok_or_else(|| format!("undeclared symbol `{n}`"))?;
        if self.syms[id].args.len() != args.len() {
            return Err(format!("`{n}` applied to {} arguments instead of {}", args.len(), self.syms[id].args.len()));
        }
        Ok((T::App(id, args), self.syms[id].out.clone()))
    }
}

// --- miniscoping -------------------------------------------------------------------------------------------------------
fn vars_of(t: &T, out: &mut std::collections::BTreeSet<usize>) {
    match t {
        T::Var(i) => {
            out.insert(*i);
        }
        T::True | T::False => {}
        T::Not(a) | T::Q(_, _, a) => vars_of(a, out),
        T::App(_, v) | T::And(v) | T::Or(v) | T::Imp(v) | T::Eq(v) | T::Distinct(v) => v.iter().for_each(|x| vars_of(x, out)),
        T::Ite(b) => [&b.0, &b.1, &b.2].into_iter().for_each(|x| vars_of(x, out)),
    }
}
fn uses(t: &T, v: usize) -> bool {
    let mut s = Default::default();
    vars_of(t, &mut s);
    s.contains(&v)
}
/// The same formula with every quantifier over as little as possible (the slots of binders are unique, domains aren't empty).
pub fn miniscope(t: &T) -> T {
    let all = |v: &[T]| v.iter().map(miniscope).collect::<Vec<_>>();
    match t {
        T::Var(_) | T::True | T::False | T::App(..) | T::Eq(_) | T::Distinct(_) => t.clone(),
        T::Not(a) => T::Not(Box::new(miniscope(a))),
        T::Imp(v) => T::Imp(all(v)),
        T::Ite(b) => T::Ite(Box::new((miniscope(&b.0), miniscope(&b.1), miniscope(&b.2)))),
        T::And(v) => T::And(all(v).into_iter().flat_map(|x| if let T::And(w) = x { w } else { vec![x] }).collect()),
        T::Or(v) => T::Or(all(v).into_iter().flat_map(|x| if let T::Or(w) = x { w } else { vec![x] }).collect()),
        T::Q(fa, vs, b) => push(*fa, vs.clone(), miniscope(b)),
    }
}
fn push(fa: bool, vs: Vec<(usize, SortName)>, b: T) -> T {
    let vs: Vec<_> = vs.into_iter().filter(|v| uses(&b, v.0)).collect();
    if vs.is_empty() {
        return b;
    }
    match b {
        T::Q(fb, ws, c) if fb == fa => push(fa, vs.into_iter().chain(ws).collect(), *c),
        // Q distributes
        T::And(v) if fa => T::And(v.into_iter().map(|x| push(fa, vs.clone(), x)).collect()),
        T::Or(v) if !fa => T::Or(v.into_iter().map(|x| push(fa, vs.clone(), x)).collect()),
        T::And(v) => T::And(eliminate(fa, vs, v, &|v| T::And(v))),
        T::Or(v) => T::Or(eliminate(fa, vs, v, &|v| T::Or(v))),
        T::Imp(mut v) if fa => {
            let last = v.pop().unwrap();
            let mut parts: Vec<T> = v.into_iter().map(|x| T::Not(Box::new(x))).collect();
            parts.push(last);
            // keep the shape when everything is used everywhere
            if vs.iter().all(|x| parts.iter().all(|p| uses(p, x.0))) {
                let last = parts.pop().unwrap();
                let mut w: Vec<T> = parts.into_iter().map(|x| if let T::Not(x) = x { *x } else { x }).collect();
                w.push(last);
                return T::Q(true, vs, Box::new(T::Imp(w)));
            }
            T::Or(eliminate(true, vs, parts, &|v| T::Or(v)))
        }
        b => T::Q(fa, vs, Box::new(b)),
    }
}
/// `exists vs (and parts)` (or its dual) as a list of parts, the variable with the fewest parts first
fn eliminate(fa: bool, mut vs: Vec<(usize, SortName)>, mut parts: Vec<T>, mk: &dyn Fn(Vec<T>) -> T) -> Vec<T> {
    vs.retain(|v| parts.iter().any(|p| uses(p, v.0)));
    if vs.is_empty() {
        return parts;
    }
    let (k, n) = vs.iter().map(|v| parts.iter().filter(|p| uses(p, v.0)).count()).enumerate().min_by_key(|x| x.1).unwrap();
    if n == parts.len() {
        // everything depends on everything
        return vec![T::Q(fa, vs, Box::new(mk(parts)))];
    }
    let v = vs.remove(k);
    let (with, without): (Vec<T>, Vec<T>) = parts.into_iter().partition(|p| uses(p, v.0));
    let inner = push(fa, vec![v], if with.len() == 1 { with.into_iter().next().unwrap() } else { mk(with) });
    parts = without;
    parts.push(inner);
    eliminate(fa, vs, parts, mk)
}
