//! Generator of well-typed protocols of the input language.
use crate::proto::*;
use crate::src::Src;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_types: usize,
    pub max_steps: usize,
    pub max_cells: usize,
    pub max_macros: usize,
    pub max_orders: usize,
    pub depth: usize,
    pub names: bool,
    pub finds: bool,
    pub quant_in_ta: bool,
    pub bool_args: bool,
    /// msg(a(i)), cond(a(i)), input(a(i)) inside steps
    pub step_refs: bool,
    pub msg_quant: bool,
    /// step guards are `true`/`false` constants only (pure time theory)
    pub trivial_steps: bool,
    pub init_step: bool,
    /// chains `(a == b == c)` in symbolic contexts (rejected when cond!/msg! or a macro moves them to a query)
    pub chains: bool,
    /// memory cells are read in guards and outputs
    pub cells_in_steps: bool,
    /// several assignments of one cell in one step, assignments in init
    pub multi_assign: bool,
    /// arguments of cryptographic primitives mostly follow their roles (keys, randomness, signatures)
    pub roles: bool,
}
impl Cfg {
    pub fn full() -> Cfg {
        Cfg { max_types: 2, max_steps: 3, max_cells: 2, max_macros: 2, max_orders: 2, depth: 3, names: true, finds: true, quant_in_ta: true, bool_args: true, step_refs: true, msg_quant: true, trivial_steps: false, init_step: true, chains: false, cells_in_steps: true, multi_assign: false, roles: false }
    }
}
const VARS: &[&str] = &["i", "j", "x", "y"];

#[derive(Clone, Default)]
pub struct Ctx {
    /// visible variables, innermost last; a name appears at most once
    pub scope: Vec<Var>,
    /// inside the body of this step
    pub step: Option<(usize, Vec<Var>)>,
    /// no index/step equality, no time predicates
    pub ta: bool,
    pub nsteps: usize,
    pub nmacros: usize,
    pub in_macro: bool,
    /// cells may be read at pred(self) (assignments only)
    pub cells_at_pred: bool,
    /// in a query/assert/lemma: steps and macros over steps are available
    pub open: bool,
}
impl Ctx {
    pub fn bind(&self, v: &Var) -> Ctx {
        let mut c = self.clone();
        c.scope.retain(|w| w.name != v.name);
        c.scope.push(v.clone());
        c
    }
    pub fn ta(&self) -> Ctx {
        let mut c = self.clone();
        c.ta = true;
        c
    }
    fn of(&self, s: Sort) -> Vec<&Var> {
        self.scope.iter().filter(|v| v.sort == s).collect()
    }
}

pub struct Gen<'s> {
    pub s: &'s mut Src,
    pub p: Proto,
    pub cfg: Cfg,
    /// what was authenticated, signed or encrypted so far: primitive, message, family of the key
    pub recent: Vec<(usize, Term, usize)>,
}

pub fn ground(t: &Term) -> bool {
    match t {
        Term::Empty => true,
        Term::Fun(_, a) => a.iter().all(ground),
        _ => false,
    }
}

impl<'s> Gen<'s> {
    pub fn new(s: &'s mut Src, cfg: Cfg) -> Self {
        Gen { s, p: Proto::default(), cfg, recent: vec![] }
    }
    pub fn fresh(&mut self, sort: Sort) -> Var {
        let n = VARS[self.s.below(VARS.len())];
        self.p.new_var(n, sort)
    }
    /// distinct names
    pub fn fresh_many(&mut self, sorts: &[Sort]) -> Vec<Var> {
        let mut out: Vec<Var> = vec![];
        for s in sorts {
            let mut k = self.s.below(VARS.len());
            while out.iter().any(|v| v.name == VARS[k]) {
                k = (k + 1) % VARS.len();
            }
            out.push(self.p.new_var(VARS[k], *s));
        }
        out
    }
    pub fn idx_sort(&mut self) -> Sort {
        Sort::Idx(self.s.below(self.p.types.len()))
    }
    pub fn add_fun(&mut self, name: &str, args: Vec<Sort>, out: Sort, sem: Sem) -> usize {
        self.p.funs.push(Fun { name: name.into(), args, out, sem });
        self.p.funs.len() - 1
    }
    pub fn signature(&mut self) {
        let nt = self.s.range(1, self.cfg.max_types);
        for k in 0..nt {
            self.p.types.push(["index", "session"][k].to_string());
        }
        if self.cfg.trivial_steps {
            return;
        }
        self.add_fun("c0", vec![], Sort::Msg, Sem::Free);
        self.add_fun("f", vec![Sort::Msg], Sort::Msg, Sem::Free);
        let t0 = self.idx_sort();
        self.add_fun("p", vec![t0], Sort::Bool, Sem::Pred);
        self.add_fun("q", vec![Sort::Msg], Sort::Bool, Sem::Pred);
        let t1 = self.idx_sort();
        self.add_fun("g", vec![Sort::Msg, t1], Sort::Msg, Sem::Free);
        if self.cfg.names {
            self.add_fun("n", vec![], Sort::Name, Sem::Name);
            let t2 = self.idx_sort();
            self.add_fun("k", vec![t2], Sort::Name, Sem::Name);
        }
        if self.cfg.bool_args {
            self.add_fun("h", vec![Sort::Bool], Sort::Msg, Sem::Free);
            self.add_fun("r", vec![Sort::Msg, Sort::Bool, Sort::Msg], Sort::Bool, Sem::Pred);
        }
        let a = self.idx_sort();
        let b = self.idx_sort();
        self.add_fun("e", vec![a, b], Sort::Bool, Sem::Pred);
        let nc = self.s.range(0, self.cfg.max_cells);
        for k in 0..nc {
            let na = self.s.range(0, 2);
            let args = (0..na).map(|_| self.idx_sort()).collect();
            self.p.cells.push(CellD { name: format!("ce{k}"), args });
        }
    }
    pub fn idx(&mut self, c: &Ctx, s: Sort) -> Option<Term> {
        let v: Vec<usize> = c.of(s).iter().map(|v| v.id).collect();
        if v.is_empty() {
            return None;
        }
        Some(Term::Var(v[v.len() - 1 - self.s.below(v.len())]))
    }
    fn idx_args(&mut self, c: &Ctx, sorts: &[Sort]) -> Option<Vec<Term>> {
        sorts.iter().map(|s| self.idx(c, *s)).collect()
    }
    /// a concrete step term
    fn conc_step(&mut self, c: &Ctx) -> Option<(usize, Vec<Term>)> {
        if c.nsteps == 0 {
            return None;
        }
        let k = self.s.below(c.nsteps);
        let sorts: Vec<Sort> = self.p.steps[k].params.iter().map(|v| v.sort).collect();
        Some((k, self.idx_args(c, &sorts)?))
    }
    pub fn step(&mut self, c: &Ctx, d: usize) -> Term {
        match self.s.weighted(&[4, 4, 1, if d > 0 { 3 } else { 0 }, if d > 0 && !c.ta { 1 } else { 0 }]) {
            0 => {
                let v: Vec<usize> = c.of(Sort::Step).iter().map(|v| v.id).collect();
                if v.is_empty() { Term::Init } else { Term::Var(v[v.len() - 1 - self.s.below(v.len())]) }
            }
            1 => self.conc_step(c).map(|(s, a)| Term::Step(s, a)).unwrap_or(Term::Init),
            2 => Term::Init,
            3 => Term::Pred(Box::new(self.step(c, d - 1))),
            _ => {
                let b = self.boolean(c, d - 1);
                Term::If(Box::new((b, self.step(c, d - 1), self.step(c, d - 1))))
            }
        }
    }
    fn fun_app(&mut self, c: &Ctx, out: &[Sort], d: usize) -> Option<Term> {
        let stray = !self.cfg.roles || self.s.chance(1, 40);
        let is_secret = |n: &str| matches!(n, "k" | "kk" | "rn" | "rr" | "kc");
        let cand: Vec<usize> = (0..self.p.funs.len()).filter(|i| {
            let f = &self.p.funs[*i];
            out.contains(&f.out) && (d > 0 || f.args.iter().all(|a| matches!(a, Sort::Idx(_)))) && (stray || !is_secret(&f.name))
        }).collect();
        if cand.is_empty() {
            return None;
        }
        let f = cand[self.s.below(cand.len())];
        let args = self.p.funs[f].args.clone();
        let c2 = c.ta();
        if self.cfg.roles {
            if let Some(t) = self.crypto_app(c, f, d) {
                return Some(t);
            }
        }
        let mut v = vec![];
        for a in args {
            v.push(match a {
                Sort::Idx(_) => self.idx(c, a)?,
                Sort::Msg => self.msg(&c2, d - 1),
                Sort::Bool => self.boolean(&c2, d - 1),
                _ => return None,
            });
        }
        // the same component twice
        if self.p.funs[f].sem == Sem::Pair && self.s.chance(1, 8) {
            v[1] = v[0].clone();
        }
        Some(Term::Fun(f, v))
    }
    /// a name of one of these families
    fn secret(&mut self, c: &Ctx, fam: &[&str], d: usize) -> Option<Term> {
        if self.s.chance(1, if fam[0] == "rn" { 6 } else { 20 }) {
            return Some(self.msg(&c.ta(), d.saturating_sub(1)));
        }
        let cand: Vec<usize> = (0..self.p.funs.len()).filter(|i| fam.contains(&self.p.funs[*i].name.as_str())).collect();
        for _ in 0..3 {
            let f = *self.s.pick(&cand);
            let args = self.p.funs[f].args.clone();
            if let Some(a) = self.idx_args(c, &args) {
                return Some(Term::Fun(f, a));
            }
        }
        None
    }
    fn sig_arg(&mut self, c: &Ctx, d: usize) -> Term {
        let c2 = c.ta();
        if c.step.is_some() && self.s.chance(3, 4) {
            let f = (0..self.p.funs.len()).filter(|i| matches!(self.p.funs[*i].sem, Sem::Fst(_) | Sem::Snd(_))).collect::<Vec<_>>();
            if !f.is_empty() && self.s.chance(1, 2) {
                return Term::Fun(*self.s.pick(&f), vec![Term::In]);
            }
            return Term::In;
        }
        self.msg(&c2, d.saturating_sub(1))
    }
    /// an application of a cryptographic primitive whose arguments have the expected roles
    fn crypto_app(&mut self, c: &Ctx, f: usize, d: usize) -> Option<Term> {
        let c2 = c.ta();
        let e = d.saturating_sub(1);
        Some(Term::Fun(
            f,
            match self.p.funs[f].sem {
                Sem::Mac => vec![self.msg(&c2, e), self.secret(c, &["k", "kk"], d)?],
                Sem::Sign => vec![self.msg(&c2, e), self.secret(c, &["k", "kk"], d)?],
                Sem::Pk => vec![self.secret(c, &["k", "kk"], d)?],
                Sem::Verify(_) => vec![self.sig_arg(c, d), self.sig_arg(c, d), self.secret(c, &["k", "kk"], d)?],
                Sem::VerifySig(_, pk) => {
                    let a = self.sig_arg(c, d);
                    let b = self.sig_arg(c, d);
                    let k = self.secret(c, &["k", "kk"], d)?;
                    vec![a, b, if self.s.chance(1, 20) { k } else { Term::Fun(pk, vec![k]) }]
                }
                Sem::Enc => vec![self.msg(&c2, e), self.secret(c, &["rn", "rr"], d)?, self.secret(c, &["kc"], d)?],
                Sem::Dec(..) => vec![self.sig_arg(c, d), self.secret(c, &["kc"], d)?],
                _ => return None,
            },
        ))
    }
    pub fn pool(&mut self, c: &Ctx, d: usize) -> Term {
        let f = |g: &Self, n: &str| g.p.funs.iter().position(|f| f.name == n);
        match self.s.below(8) {
            0 | 1 => Term::Empty,
            2 | 3 => Term::Fun(f(self, "c0").unwrap(), vec![]),
            4 => Term::Fun(f(self, "n").unwrap(), vec![]),
            5 if c.step.is_some() => Term::In,
            _ => self.msg(&c.ta(), d.saturating_sub(1)),
        }
    }
    pub fn fun_of(&mut self, ok: impl Fn(Sem) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.p.funs.len()).filter(|i| ok(self.p.funs[*i].sem)).collect();
        if v.is_empty() { None } else { Some(*self.s.pick(&v)) }
    }
    fn binder(&mut self, c: &Ctx) -> (Vec<Var>, Ctx) {
        let n = self.s.range(1, 2);
        let sorts: Vec<Sort> = (0..n).map(|_| self.idx_sort()).collect();
        let vs = self.fresh_many(&sorts);
        let mut ci = c.ta();
        for v in &vs {
            ci = ci.bind(v);
        }
        (vs, ci)
    }
    /// a message authenticated, signed or encrypted with a key of the protocol, possibly in a context
    pub fn role_msg(&mut self, c: &Ctx, d: usize) -> Term {
        let c = &c.ta();
        let Some(f) = self.fun_of(|s| matches!(s, Sem::Mac | Sem::Sign | Sem::Enc)) else { return self.msg(c, d) };
        match self.s.weighted(&[6, if d > 0 { 2 } else { 0 }, if d > 0 && self.cfg.finds { 2 } else { 0 }]) {
            1 => {
                let b = if self.s.chance(1, 2) { self.role_bool(c, d - 1) } else { self.boolean(c, d - 1) };
                let x = self.role_msg(c, d - 1);
                let y = self.pool(c, d);
                return Term::If(Box::new(if self.s.chance(1, 2) { (b, x, y) } else { (b, y, x) }));
            }
            2 => {
                let (vs, ci) = self.binder(c);
                let b = if self.s.chance(1, 2) { self.role_bool(&ci, d - 1) } else { self.boolean(&ci, d - 1) };
                let x = self.role_msg(&ci, d - 1);
                return Term::Find(vs, Box::new((b, x, Term::Empty)));
            }
            _ => {}
        }
        let m = self.pool(c, d);
        let keys: &[&str] = if self.p.funs[f].sem == Sem::Enc { &["kc"] } else { &["k", "kk"] };
        let Some(k) = self.secret(c, keys, d) else { return m };
        if let Term::Fun(kf, _) = &k {
            self.recent.push((f, m.clone(), *kf));
        }
        let app = if self.p.funs[f].sem == Sem::Enc {
            let Some(r) = self.secret(c, &["rn", "rr"], d) else { return m };
            Term::Fun(f, vec![m.clone(), r, k])
        } else {
            Term::Fun(f, vec![m.clone(), k])
        };
        match (self.fun_of(|s| s == Sem::Pair), self.s.below(5)) {
            (Some(t), 0) => Term::Fun(t, vec![m, app]),
            (Some(t), 1) => Term::Fun(t, vec![app, m]),
            (Some(t), 2) => {
                let x = self.pool(c, d);
                Term::Fun(t, vec![app, x])
            }
            _ => app,
        }
    }
    /// a check of a verification, of a decryption or of a recomputed mac
    pub fn role_bool(&mut self, c: &Ctx, d: usize) -> Term {
        let c = &c.ta();
        let Some(f) = self.fun_of(|s| matches!(s, Sem::Verify(_) | Sem::VerifySig(..) | Sem::Dec(..) | Sem::Mac)) else { return self.boolean(c, d) };
        match self.s.weighted(&[6, if d > 0 { 2 } else { 0 }, if d > 0 && self.cfg.quant_in_ta { 2 } else { 0 }]) {
            1 => {
                let b = self.boolean(c, d - 1);
                let x = self.role_bool(c, d - 1);
                let o = *self.s.pick(&[Op::And, Op::Or, Op::Imp]);
                return Term::Op(o, if self.s.chance(1, 2) { vec![b, x] } else { vec![x, b] });
            }
            2 => {
                let (vs, ci) = self.binder(c);
                let x = self.role_bool(&ci, d - 1);
                return Term::Q(self.s.chance(1, 3), vs, Box::new(x));
            }
            _ => {}
        }
        let prj: Vec<usize> = ["fst", "snd"].iter().filter_map(|n| self.p.funs.iter().position(|f| f.name == *n)).collect();
        let inp = if c.step.is_some() { Term::In } else { self.pool(c, d) };
        let (sg, m) = match (prj.len(), self.s.below(4)) {
            (2, 0) => (Term::Fun(prj[0], vec![inp.clone()]), Term::Fun(prj[1], vec![inp])),
            (2, 1) => (Term::Fun(prj[1], vec![inp.clone()]), Term::Fun(prj[0], vec![inp])),
            (2, 2) => (Term::Fun(prj[0], vec![inp]), self.pool(c, d)),
            _ => (inp, self.pool(c, d)),
        };
        // most of the time, check something that the protocol produces
        let mut f = f;
        let mut m = m;
        let mut known_key = None;
        if !self.recent.is_empty() && self.s.chance(2, 3) {
            let (prim, rm, kf) = self.recent[self.recent.len() - 1 - self.s.below(self.recent.len())].clone();
            let args = self.p.funs[kf].args.clone();
            let check = self.fun_of(|s| match s {
                Sem::Verify(x) | Sem::VerifySig(x, _) | Sem::Dec(x, _) => x == prim,
                _ => false,
            });
            if let (Some(g), Some(a)) = (check, self.idx_args(c, &args)) {
                f = if self.p.funs[prim].sem == Sem::Mac && self.s.chance(1, 4) { prim } else { g };
                known_key = Some(Term::Fun(kf, a));
                if ground(&rm) && self.s.chance(1, 2) {
                    m = rm;
                }
            }
        }
        let sem = self.p.funs[f].sem;
        let k = match known_key {
            Some(k) => k,
            None => match self.secret(c, if matches!(sem, Sem::Dec(..)) { &["kc"] } else { &["k", "kk"] }, d) {
                Some(k) => k,
                None => return self.boolean(c, d),
            },
        };
        match sem {
            Sem::Verify(_) => Term::Fun(f, vec![sg, m, k]),
            Sem::VerifySig(_, pk) => Term::Fun(f, vec![sg, m, Term::Fun(pk, vec![k])]),
            Sem::Dec(_, fl) => {
                let x = Term::Fun(f, vec![sg, k]);
                let fl = Term::Fun(fl, vec![]);
                match self.s.below(4) {
                    0 => Term::Op(Op::Eq, vec![x, m]),
                    1 => Term::Op(Op::Eq, vec![m, x]),
                    2 => Term::Not(Box::new(Term::Op(Op::Eq, vec![x, fl]))),
                    _ => Term::Op(Op::Neq, vec![x, fl]),
                }
            }
            _ => {
                let x = Term::Fun(f, vec![m, k]);
                Term::Op(if self.s.chance(1, 8) { Op::Neq } else { Op::Eq }, if self.s.chance(1, 2) { vec![sg, x] } else { vec![x, sg] })
            }
        }
    }
    fn macro_call(&mut self, c: &Ctx, out: Sort, d: usize) -> Option<Term> {
        let cand: Vec<usize> = (0..c.nmacros).filter(|m| self.macro_sort(*m) == out && (self.macro_ta_ok(*m) || !c.ta)).collect();
        if cand.is_empty() {
            return None;
        }
        let m = cand[self.s.below(cand.len())];
        let ps: Vec<Sort> = self.p.macros[m].params.iter().map(|v| v.sort).collect();
        let mut v = vec![];
        let c2 = c.ta();
        for s in ps {
            v.push(match s {
                Sort::Idx(_) => self.idx(c, s)?,
                Sort::Msg => self.msg(&c2, d.saturating_sub(1)),
                Sort::Step => self.step(c, 1),
                _ => return None,
            });
        }
        Some(Term::Macro(m, v))
    }
    fn macro_sort(&self, m: usize) -> Sort {
        if self.p.macros[m].name.starts_with("mb") { Sort::Bool } else { Sort::Msg }
    }
    fn macro_ta_ok(&self, m: usize) -> bool {
        !self.p.macros[m].name.starts_with("mbq")
    }
    fn leaf_msg(&mut self, c: &Ctx) -> Term {
        let v: Vec<usize> = c.of(Sort::Msg).iter().map(|v| v.id).collect();
        let k = self.s.below(4 + if c.step.is_some() { 3 } else { 0 } + if v.is_empty() { 0 } else { 4 });
        if k == 0 {
            return Term::Empty;
        }
        if k >= 4 {
            if c.step.is_some() && k < 7 {
                return Term::In;
            }
            if !v.is_empty() {
                return Term::Var(v[v.len() - 1 - self.s.below(v.len())]);
            }
        }
        if let Some(t) = self.fun_app(c, &[Sort::Msg, Sort::Name], 0) {
            return t;
        }
        Term::Empty
    }
    pub fn cell_read(&mut self, c: &Ctx) -> Option<Term> {
        if self.p.cells.is_empty() {
            return None;
        }
        let k = self.s.below(self.p.cells.len());
        let sorts = self.p.cells[k].args.clone();
        let a = self.idx_args(c, &sorts)?;
        let st = if c.open {
            self.step(&c.ta(), 1)
        } else if let Some((s, ps)) = &c.step {
            if !c.cells_at_pred && !self.cfg.cells_in_steps {
                return None;
            }
            let me = if self.p.steps.get(*s).is_some_and(|d| d.name == "init") { Term::Init } else { Term::Step(*s, ps.iter().map(|v| Term::Var(v.id)).collect()) };
            match self.s.weighted(&[4, if c.cells_at_pred { 0 } else { 3 }, 1, 1]) {
                0 => Term::Pred(Box::new(me)),
                1 => me,
                2 => Term::Init,
                _ => self.conc_step(c).map(|(s, a)| Term::Step(s, a)).unwrap_or(Term::Pred(Box::new(me))),
            }
        } else {
            return None;
        };
        // the step's own parameters must not be shadowed where they are named
        if let (Some((_, ps)), false) = (&c.step, c.open) {
            if ps.iter().any(|v| !c.scope.iter().any(|w| w.id == v.id)) {
                return None;
            }
        }
        Some(Term::Cell(k, a, Box::new(st)))
    }
    pub fn msg(&mut self, c: &Ctx, d: usize) -> Term {
        if d == 0 {
            return self.leaf_msg(c);
        }
        let r = match self.s.weighted(&[3, 6, 3, if self.cfg.finds { 2 } else { 0 }, 2, 2, 3, 2, 2]) {
            0 => Some(self.leaf_msg(c)),
            1 => self.fun_app(c, &[Sort::Msg, Sort::Name], d),
            2 => {
                let b = self.boolean(c, d - 1);
                Some(Term::If(Box::new((b, self.msg(c, d - 1), self.msg(c, d - 1)))))
            }
            3 => {
                // a find switches to the symbolic context
                let c = &c.ta();
                let n = self.s.range(1, 2);
                let sorts: Vec<Sort> = (0..n).map(|_| self.idx_sort()).collect();
                let vs = self.fresh_many(&sorts);
                let mut ci = c.clone();
                for v in &vs {
                    ci = ci.bind(v);
                }
                let b = self.boolean(&ci, d - 1);
                let th = self.msg(&ci, d - 1);
                let el = self.msg(c, d - 1);
                Some(Term::Find(vs, Box::new((b, th, el))))
            }
            4 => Some(self.let_in(c, d, Sort::Msg)),
            5 => self.macro_call(c, Sort::Msg, d),
            6 => {
                if c.open {
                    let st = self.step(&c.ta(), 1);
                    Some(if self.s.chance(1, 2) { Term::MsgF(Box::new(st)) } else { Term::Input(Box::new(st)) })
                } else if self.cfg.step_refs && c.step.is_some() {
                    let (s, a) = match self.conc_step(c) {
                        Some(x) => x,
                        None => return self.leaf_msg(c),
                    };
                    let t = Box::new(Term::Step(s, a));
                    Some(if self.s.chance(1, 2) { Term::MsgF(t) } else { Term::Input(t) })
                } else {
                    None
                }
            }
            7 => self.cell_read(c),
            _ => {
                if c.open || (self.cfg.step_refs && c.step.is_some()) { self.conc_step(c).map(|(s, a)| Term::MsgM(s, a)) } else { None }
            }
        };
        r.unwrap_or_else(|| self.leaf_msg(c))
    }
    fn let_in(&mut self, c: &Ctx, d: usize, out: Sort) -> Term {
        let k = self.s.below(4);
        let (srt, val) = match k {
            1 if !c.scope.iter().all(|v| !matches!(v.sort, Sort::Idx(_))) => {
                let s = c.scope.iter().find(|v| matches!(v.sort, Sort::Idx(_))).unwrap().sort;
                (s, self.idx(c, s).unwrap())
            }
            2 if c.open && !c.ta => (Sort::Step, self.step(c, 1)),
            3 if !c.ta => (Sort::Bool, self.boolean(c, d - 1)),
            _ => (Sort::Msg, self.msg(&c.ta(), d - 1)),
        };
        let v = self.fresh(srt);
        let ci = c.bind(&v);
        let body = if out == Sort::Msg { self.msg(&ci, d - 1) } else { self.boolean(&ci, d - 1) };
        Term::Let(v, Box::new((val, body)))
    }
    fn leaf_bool(&mut self, c: &Ctx) -> Term {
        match self.s.below(4) {
            0 => Term::True,
            1 => Term::False,
            _ => {
                if !c.ta {
                    let v: Vec<usize> = c.of(Sort::Bool).iter().map(|v| v.id).collect();
                    if !v.is_empty() && self.s.chance(1, 2) {
                        return Term::Var(v[v.len() - 1 - self.s.below(v.len())]);
                    }
                }
                self.fun_app(c, &[Sort::Bool], 0).unwrap_or(Term::True)
            }
        }
    }
    pub fn boolean(&mut self, c: &Ctx, d: usize) -> Term {
        if d == 0 {
            return self.leaf_bool(c);
        }
        let open = c.open && !c.ta;
        let r = match self.s.weighted(&[2, 5, 3, 5, 4, if self.cfg.quant_in_ta || open { 4 } else { 0 }, 1, 1, if open { 6 } else { 0 }, if c.open { 2 } else { 0 }, 1, if open { 2 } else { 0 }]) {
            0 => Some(self.leaf_bool(c)),
            1 => self.fun_app(c, &[Sort::Bool], d),
            2 => Some(Term::Not(Box::new(self.boolean(c, d - 1)))),
            3 => {
                let o = *self.s.pick(&[Op::And, Op::Or, Op::Imp, Op::Iff]);
                let n = match o {
                    Op::And | Op::Or => self.s.range(2, 3),
                    Op::Iff if c.ta && self.cfg.chains => self.s.range(2, 3),
                    _ => 2,
                };
                Some(Term::Op(o, (0..n).map(|_| self.boolean(c, d - 1)).collect()))
            }
            4 => {
                let o = if self.s.chance(1, 3) { Op::Neq } else { Op::Eq };
                let n = if o == Op::Eq && c.ta && self.cfg.chains && self.s.chance(1, 4) { 3 } else { 2 };
                Some(Term::Op(o, (0..n).map(|_| self.msg(c, d - 1)).collect()))
            }
            5 => {
                let n = self.s.range(1, 2);
                let sorts: Vec<Sort> = (0..n).map(|_| self.quant_sort(c)).collect();
                let vs = self.fresh_many(&sorts);
                let mut ci = c.clone();
                for v in &vs {
                    ci = ci.bind(v);
                }
                let fa = self.s.chance(1, 2);
                let b = self.boolean(&ci, d - 1);
                Some(Term::Q(fa, vs, Box::new(b)))
            }
            6 => {
                if c.ta {
                    None
                } else {
                    let a = self.boolean(c, d - 1);
                    Some(Term::If(Box::new((a, self.boolean(c, d - 1), self.boolean(c, d - 1)))))
                }
            }
            7 => Some(self.let_in(c, d, Sort::Bool)),
            8 => {
                let a = self.step(c, d.min(2));
                let b = self.step(c, d.min(2));
                Some(match self.s.below(5) {
                    0 => Term::Happens(Box::new(a)),
                    1 => Term::Lt(Box::new((a, b))),
                    2 => Term::Leq(Box::new((a, b))),
                    3 => Term::Gt(Box::new((a, b))),
                    _ => Term::Op(if self.s.chance(1, 2) { Op::Neq } else { Op::Eq }, vec![a, b]),
                })
            }
            9 => {
                let a = self.step(&c.ta(), 1);
                Some(match self.s.below(3) {
                    0 => Term::CondF(Box::new(a)),
                    1 => Term::ExecF(Box::new(a)),
                    _ => match self.conc_step(c) {
                        Some((s, a)) => Term::CondM(s, a),
                        None => Term::CondF(Box::new(a)),
                    },
                })
            }
            10 => self.macro_call(c, Sort::Bool, d),
            _ => {
                let s = self.idx_sort();
                match (self.idx(c, s), self.idx(c, s)) {
                    (Some(a), Some(b)) => Some(Term::Op(if self.s.chance(1, 2) { Op::Neq } else { Op::Eq }, vec![a, b])),
                    _ => None,
                }
            }
        };
        r.unwrap_or_else(|| self.leaf_bool(c))
    }
    fn quant_sort(&mut self, c: &Ctx) -> Sort {
        if c.open && !c.ta {
            match self.s.weighted(&[5, 3, if self.cfg.msg_quant { 1 } else { 0 }, 1]) {
                0 => self.idx_sort(),
                1 => Sort::Step,
                2 => Sort::Msg,
                _ => Sort::Bool,
            }
        } else {
            self.idx_sort()
        }
    }
    /// `order` declarations that some trace satisfies
    pub fn orders(&mut self) {
        if self.p.steps.is_empty() {
            return;
        }
        let n = self.s.range(0, self.cfg.max_orders);
        for _ in 0..n {
            // orders that involve init can exclude every trace: only the time check wants them
            let ns = if self.cfg.trivial_steps { self.p.steps.len() } else { self.user_steps() };
            let a = self.s.below(ns);
            let b = self.s.below(ns);
            let mut c = Ctx::default();
            let nv = self.s.range(1, 3);
            let sorts: Vec<Sort> = (0..nv).map(|_| self.idx_sort()).collect();
            let vs = self.fresh_many(&sorts);
            for v in &vs {
                c = c.bind(v);
            }
            let pa: Vec<Sort> = self.p.steps[a].params.iter().map(|v| v.sort).collect();
            let pb: Vec<Sort> = self.p.steps[b].params.iter().map(|v| v.sort).collect();
            let (la, lb) = match (self.idx_args(&c, &pa), self.idx_args(&c, &pb)) {
                (Some(x), Some(y)) => (x, y),
                _ => continue,
            };
            if la.is_empty() && lb.is_empty() && a == b {
                continue;
            }
            let guard = if self.s.chance(1, 2) {
                let s = sorts[0];
                let xs: Vec<usize> = vs.iter().filter(|v| v.sort == s).map(|v| v.id).collect();
                if xs.len() >= 2 && self.s.chance(2, 3) {
                    Some(Term::Op(Op::Neq, vec![Term::Var(xs[0]), Term::Var(xs[1])]))
                } else {
                    None
                }
            } else {
                None
            };
            let kind = *self.s.pick(&[OrdKind::Lt, OrdKind::Gt, OrdKind::Excl]);
            let t = |s: &Proto, k: usize, v: Vec<Term>| if s.steps[k].name == "init" { Term::Init } else { Term::Step(k, v) };
            let l = t(&self.p, a, la);
            let r = t(&self.p, b, lb);
            let braces = self.s.chance(1, 2);
            self.p.orders.push(OrderD { vars: vs, guard, l, r, kind, braces });
        }
    }
    pub fn macros(&mut self, after: usize, budget: &mut usize) {
        while *budget > 0 && self.s.chance(1, 2) {
            *budget -= 1;
            let k = self.p.macros.len();
            let np = self.s.range(0, 2);
            let sorts: Vec<Sort> = (0..np).map(|_| if self.s.chance(1, 2) { Sort::Msg } else { self.idx_sort() }).collect();
            let params = self.fresh_many(&sorts);
            let mut c = Ctx { ta: true, nmacros: k, in_macro: true, ..Default::default() };
            for v in &params {
                c = c.bind(v);
            }
            let is_bool = self.s.chance(1, 2);
            let d = self.cfg.depth;
            let body = if is_bool { self.boolean(&c, d) } else { self.msg(&c, d) };
            self.p.macros.push(MacroD { name: format!("{}{k}", if is_bool { "mb" } else { "mm" }), params, body, after_steps: after });
        }
    }
    pub fn steps(&mut self) {
        let n = self.s.range(1, self.cfg.max_steps);
        let mut mb = self.cfg.max_macros;
        for k in 0..n {
            self.macros(k, &mut mb);
            let wide = self.p.funs.iter().any(|f| f.name == "k" && f.args.len() > 2);
            let np = self.s.range(0, if wide { 3 } else { 2 });
            let sorts: Vec<Sort> = (0..np).map(|_| self.idx_sort()).collect();
            let params = self.fresh_many(&sorts);
            let mut c = Ctx { ta: true, nsteps: k, nmacros: self.p.macros.len(), step: Some((k, params.clone())), ..Default::default() };
            for v in &params {
                c = c.bind(v);
            }
            if self.cfg.trivial_steps {
                self.p.steps.push(StepD { name: format!("s{k}"), params, cond: Term::True, msg: Term::Empty, assigns: vec![] });
                continue;
            }
            let d = self.cfg.depth;
            let cond = if self.cfg.roles && self.s.chance(3, 5) { self.role_bool(&c, d) } else { self.boolean(&c, d) };
            let msg = if self.cfg.roles && self.s.chance(2, 3) { self.role_msg(&c, d) } else { self.msg(&c, d) };
            self.p.steps.push(StepD { name: format!("s{k}"), params: params.clone(), cond, msg, assigns: vec![] });
            let assigns = self.assigns(&c, k, &params);
            self.p.steps[k].assigns = assigns;
        }
        self.macros(n, &mut mb);
        if self.cfg.init_step && self.s.chance(1, 4) {
            let c = Ctx { ta: true, nsteps: 0, nmacros: 0, ..Default::default() };
            let d = self.cfg.depth;
            let msg = if self.cfg.trivial_steps { Term::Empty } else { self.msg(&c, d) };
            self.p.steps.push(StepD { name: "init".into(), params: vec![], cond: Term::True, msg, assigns: vec![] });
            if self.cfg.multi_assign {
                let k = self.p.steps.len() - 1;
                self.p.steps[k].assigns = self.assigns(&c, k, &[]);
            }
        }
    }
    fn assigns(&mut self, c: &Ctx, k: usize, params: &[Var]) -> Vec<Assign> {
        let mut out: Vec<Assign> = vec![];
        if self.p.cells.is_empty() {
            return out;
        }
        let twice = if self.cfg.multi_assign { self.s.range(1, 2) } else { 1 };
        for cell in (0..twice).flat_map(|_| 0..self.p.cells.len()).collect::<Vec<_>>() {
            // unless asked for, at most one assignment per cell and step: overlapping writes have no defined meaning
            if !self.s.chance(2, 3) {
                continue;
            }
            let sorts = self.p.cells[cell].args.clone();
            let mut fresh = vec![];
            let mut ci = c.clone();
            ci.cells_at_pred = true;
            let mut args = vec![];
            let mut ok = true;
            for s in &sorts {
                if self.s.chance(1, 3) {
                    // a fresh variable with a name of its own
                    let nm = ["l", "m"][fresh.len() % 2];
                    let v = self.p.new_var(nm, *s);
                    ci = ci.bind(&v);
                    args.push(Term::Var(v.id));
                    fresh.push(v);
                } else {
                    match self.idx(c, *s) {
                        Some(t) => args.push(t),
                        None => ok = false,
                    }
                }
            }
            if !ok {
                continue;
            }
            let d = self.cfg.depth.saturating_sub(1);
            let val = self.msg(&ci, d);
            out.push(Assign { fresh, cell, args, val });
        }
        let _ = (k, params);
        out
    }
    pub fn user_steps(&self) -> usize {
        self.p.steps.iter().filter(|s| s.name != "init").count()
    }
    pub fn open_ctx(&self) -> Ctx {
        Ctx { open: true, nsteps: self.user_steps(), nmacros: self.p.macros.len(), ..Default::default() }
    }
    /// a closed evaluated-level formula
    pub fn formula(&mut self, d: usize) -> Term {
        let c = self.open_ctx();
        let mut sorts: Vec<Sort> = vec![];
        for t in 0..self.p.types.len() {
            if self.s.chance(2, 3) {
                sorts.push(Sort::Idx(t));
            }
        }
        if self.s.chance(1, 2) {
            sorts.push(Sort::Step);
        }
        let vs = self.fresh_many(&sorts);
        let mut ci = c.clone();
        for v in &vs {
            ci = ci.bind(v);
        }
        let b = self.boolean(&ci, d);
        if vs.is_empty() { b } else { Term::Q(self.s.chance(2, 3), vs, Box::new(b)) }
    }
    /// everything but queries/asserts
    pub fn protocol(&mut self) {
        self.signature();
        self.steps();
        self.orders();
        self.style();
    }
    /// names that look like those the tool makes up
    pub fn rename(&mut self) {
        if !self.s.chance(1, 3) {
            return;
        }
        const ODD: &[&str] = &["MX0", "MX1", "MX2", "iX0", "iX1", "iX2", "SX0", "sX1", "NX0", "BX0", "a'", "é", "b-c", "x_y", "sk0", "subterm-nonce", "Xor", "nonce", "name", "tester", "is", "Bitstring", "Condition", "arg0", "n'", "check-sat"];
        let mut odd: Vec<String> = ODD.iter().map(|x| x.to_string()).collect();
        let mut pick = |s: &mut Src| -> Option<String> {
            if odd.is_empty() || !s.chance(1, 2) {
                return None;
            }
            let k = s.below(odd.len());
            Some(odd.remove(k))
        };
        for f in &mut self.p.funs {
            if let Some(n) = pick(self.s) {
                f.name = n;
            }
        }
        for f in &mut self.p.cells {
            if let Some(n) = pick(self.s) {
                f.name = n;
            }
        }
        for f in &mut self.p.steps {
            if f.name != "init" {
                if let Some(n) = pick(self.s) {
                    f.name = n;
                }
            }
        }
        for t in &mut self.p.types {
            if let Some(n) = pick(self.s) {
                if n != "Bitstring" && n != "Condition" {
                    *t = n;
                }
            }
        }
    }
    pub fn style(&mut self) {
        self.p.style = Style { sep: true, brackets: self.s.chance(1, 4), unicode: self.s.chance(1, 4), noise: if self.s.chance(1, 4) { 1 + self.s.below(1000) as u64 } else { 0 } };
    }
}

impl<'s> Gen<'s> {
    /// Cryptographic primitives and the assumptions over them.
    pub fn crypto(&mut self) {
        use Sort::*;
        if self.cfg.roles {
            // keys with repeated indices need several of them
            if self.s.chance(1, 8) {
                if let Some(k) = self.p.funs.iter_mut().find(|f| f.name == "k") {
                    k.args = vec![k.args[0]; self.s.range(2, 4)];
                }
            }
            let t = self.idx_sort();
            let t2 = self.idx_sort();
            let t3 = self.idx_sort();
            self.add_fun("kk", vec![], Name, Sem::Name);
            self.add_fun("rn", vec![t], Name, Sem::Name);
            self.add_fun("rr", vec![t, t2], Name, Sem::Name);
            self.add_fun("kc", vec![t3], Name, Sem::Name);
        }
        if self.s.chance(2, 3) {
            let t = self.add_fun("tup", vec![Msg, Msg], Msg, Sem::Pair);
            self.add_fun("fst", vec![Msg], Msg, Sem::Fst(t));
            self.add_fun("snd", vec![Msg], Msg, Sem::Snd(t));
        }
        if self.s.chance(2, 3) {
            self.p.cryptos.push(Crypto::Nonce);
        }
        if self.s.chance(1, 2) {
            let m = self.add_fun("mac", vec![Msg, Msg], Msg, Sem::Mac);
            let v = self.add_fun("verify", vec![Msg, Msg, Msg], Bool, Sem::Verify(m));
            match self.s.below(3) {
                0 => self.p.cryptos.push(Crypto::EufMac(m, v)),
                1 => self.p.cryptos.push(Crypto::UfCma(m, v, false)),
                _ => self.p.cryptos.push(Crypto::UfCma(m, v, true)),
            }
        }
        if self.s.chance(1, 3) {
            let g = self.add_fun("sign", vec![Msg, Msg], Msg, Sem::Sign);
            let k = self.add_fun("pk", vec![Msg], Msg, Sem::Pk);
            let v = if self.s.chance(1, 2) { "checksign" } else { "vrf" };
            let v = self.add_fun(v, vec![Msg, Msg, Msg], Bool, Sem::VerifySig(g, k));
            self.p.cryptos.push(Crypto::EufSig(g, v, k));
        }
        if self.s.chance(1, 3) {
            let e = self.add_fun("enc", vec![Msg, Msg, Msg], Msg, Sem::Enc);
            let f = self.add_fun("fail", vec![], Msg, Sem::Free);
            let d = self.add_fun("dec", vec![Msg, Msg], Msg, Sem::Dec(e, f));
            self.p.cryptos.push(Crypto::IntCtxt(e, d, f));
        }
        if self.s.chance(1, 2) {
            self.p.cryptos.push(Crypto::Cells);
        }
        if self.s.chance(1, 2) {
            let o = match self.s.below(3) {
                0 => vec![],
                1 => vec!["direct"],
                _ => vec!["recurisve"],
            };
            self.p.cryptos.push(Crypto::Unfolding(o));
        }
    }
}
