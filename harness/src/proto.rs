//! Protocol AST of the harness and its printer to the tool's input language.
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Idx(usize),
    Msg,
    Bool,
    Step,
    Name,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sem {
    Free,
    Name,
    Pred,
    Pair,
    Fst(usize),
    Snd(usize),
    Mac,
    Verify(usize),
    Sign,
    Pk,
    VerifySig(usize, usize),
    Enc,
    Dec(usize, usize),
}
#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    pub args: Vec<Sort>,
    pub out: Sort,
    pub sem: Sem,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Var {
    pub id: usize,
    pub name: String,
    pub sort: Sort,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    And,
    Or,
    Imp,
    Iff,
    Eq,
    Neq,
}
impl Op {
    pub fn txt(self) -> &'static str {
        match self {
            Op::And => "&&",
            Op::Or => "||",
            Op::Imp => "=>",
            Op::Iff => "<=>",
            Op::Eq => "==",
            Op::Neq => "!=",
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Term {
    Var(usize),
    Fun(usize, Vec<Term>),
    True,
    False,
    Empty,
    Not(Box<Term>),
    Op(Op, Vec<Term>),
    If(Box<(Term, Term, Term)>),
    Find(Vec<Var>, Box<(Term, Term, Term)>),
    Let(Var, Box<(Term, Term)>),
    Q(bool, Vec<Var>, Box<Term>),
    Macro(usize, Vec<Term>),
    /// msg!(step(args)) / cond!(step(args))
    MsgM(usize, Vec<Term>),
    CondM(usize, Vec<Term>),
    Step(usize, Vec<Term>),
    Init,
    Pred(Box<Term>),
    In,
    Input(Box<Term>),
    MsgF(Box<Term>),
    CondF(Box<Term>),
    ExecF(Box<Term>),
    Happens(Box<Term>),
    Lt(Box<(Term, Term)>),
    Leq(Box<(Term, Term)>),
    Gt(Box<(Term, Term)>),
    Cell(usize, Vec<Term>, Box<Term>),
}
#[derive(Clone, Debug)]
pub struct CellD {
    pub name: String,
    pub args: Vec<Sort>,
}
#[derive(Clone, Debug)]
pub struct Assign {
    pub fresh: Vec<Var>,
    pub cell: usize,
    pub args: Vec<Term>,
    pub val: Term,
}
#[derive(Clone, Debug)]
pub struct StepD {
    pub name: String,
    pub params: Vec<Var>,
    pub cond: Term,
    pub msg: Term,
    pub assigns: Vec<Assign>,
}
#[derive(Clone, Debug)]
pub struct MacroD {
    pub name: String,
    pub params: Vec<Var>,
    pub body: Term,
    /// printed after this many steps
    pub after_steps: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OrdKind {
    Lt,
    Gt,
    Excl,
}
#[derive(Clone, Debug)]
pub struct OrderD {
    pub vars: Vec<Var>,
    pub guard: Option<Term>,
    pub l: Term,
    pub r: Term,
    pub kind: OrdKind,
    pub braces: bool,
}
#[derive(Clone, Debug)]
pub enum Crypto {
    Nonce,
    Cells,
    Unfolding(Vec<&'static str>),
    EufMac(usize, usize),
    UfCma(usize, usize, bool),
    EufSig(usize, usize, usize),
    IntCtxt(usize, usize, usize),
}
#[derive(Clone, Debug, Default)]
pub struct Proto {
    pub types: Vec<String>,
    pub funs: Vec<Fun>,
    pub cells: Vec<CellD>,
    pub steps: Vec<StepD>,
    pub macros: Vec<MacroD>,
    pub orders: Vec<OrderD>,
    pub asserts: Vec<Term>,
    pub lemmas: Vec<Term>,
    pub query: Option<Term>,
    pub cryptos: Vec<Crypto>,
    pub var_names: Vec<String>,
    pub var_sorts: Vec<Sort>,
    /// layout noise used by the printer
    pub style: Style,
}
#[derive(Clone, Debug, Default)]
pub struct Style {
    pub sep: bool,
    pub brackets: bool,
    pub unicode: bool,
    pub noise: u64,
}

impl Proto {
    pub fn new_var(&mut self, name: &str, sort: Sort) -> Var {
        let id = self.var_names.len();
        self.var_names.push(name.to_string());
        self.var_sorts.push(sort);
        Var { id, name: name.to_string(), sort }
    }
    pub fn sort_name(&self, s: Sort) -> String {
        match s {
            Sort::Idx(i) => self.types[i].clone(),
            Sort::Msg => "Message".into(),
            Sort::Bool => "Bool".into(),
            Sort::Step => "Step".into(),
            Sort::Name => "Name".into(),
        }
    }
    pub fn vars_txt(&self, vs: &[Var]) -> String {
        vs.iter().map(|v| format!("{}:{}", self.var_names[v.id], self.sort_name(v.sort))).collect::<Vec<_>>().join(", ")
    }
    fn call(&self, f: &str, args: Vec<String>) -> String {
        if args.is_empty() {
            f.to_string()
        } else if self.style.brackets && f.ends_with('!') {
            format!("{f}[{}]", args.join(", "))
        } else {
            format!("{f}({})", args.join(", "))
        }
    }
    pub fn t(&self, t: &Term) -> String {
        let many = |v: &Vec<Term>| v.iter().map(|x| self.t(x)).collect::<Vec<_>>();
        match t {
            Term::Var(i) => self.var_names[*i].clone(),
            Term::Fun(f, a) => self.call(&self.funs[*f].name, many(a)),
            Term::True => "true".into(),
            Term::False => "false".into(),
            Term::Empty => "empty".into(),
            Term::Not(x) => format!("not({})", self.t(x)),
            Term::Op(o, v) => format!("({})", many(v).join(&format!(" {} ", o.txt()))),
            Term::If(b) => format!("if {} {{ {} }} else {{ {} }}", self.t(&b.0), self.t(&b.1), self.t(&b.2)),
            Term::Find(v, b) => format!("try find ({}) such that {{ {} }} then {{ {} }} else {{ {} }}", self.vars_txt(v), self.t(&b.0), self.t(&b.1), self.t(&b.2)),
            Term::Let(v, b) => format!("let {}:{} = {} in {}", self.var_names[v.id], self.sort_name(v.sort), self.t(&b.0), self.t(&b.1)),
            Term::Q(fa, v, b) => {
                let q = match (fa, self.style.unicode) {
                    (true, false) => "forall",
                    (false, false) => "exists",
                    (true, true) => "∀",
                    (false, true) => "∃",
                };
                format!("{q} ({}) {{ {} }}", self.vars_txt(v), self.t(b))
            }
            Term::Macro(m, a) => self.call(&format!("{}!", self.macros[*m].name), many(a)),
            Term::MsgM(s, a) => format!("msg!({})", self.call(&self.steps[*s].name, many(a))),
            Term::CondM(s, a) => format!("cond!({})", self.call(&self.steps[*s].name, many(a))),
            Term::Step(s, a) => self.call(&self.steps[*s].name, many(a)),
            Term::Init => "init".into(),
            Term::Pred(s) => format!("pred({})", self.t(s)),
            Term::In => "in".into(),
            Term::Input(s) => format!("input({})", self.t(s)),
            Term::MsgF(s) => format!("msg({})", self.t(s)),
            Term::CondF(s) => format!("cond({})", self.t(s)),
            Term::ExecF(s) => format!("exec({})", self.t(s)),
            Term::Happens(s) => format!("happens({})", self.t(s)),
            Term::Lt(b) => format!("lt({}, {})", self.t(&b.0), self.t(&b.1)),
            Term::Leq(b) => format!("leq({}, {})", self.t(&b.0), self.t(&b.1)),
            Term::Gt(b) => format!("gt({}, {})", self.t(&b.0), self.t(&b.1)),
            Term::Cell(c, a, s) => {
                let mut v = many(a);
                v.push(self.t(s));
                self.call(&self.cells[*c].name, v)
            }
        }
    }
    pub fn sorts_txt(&self, v: &[Sort]) -> String {
        if v.is_empty() { String::new() } else { format!("({})", v.iter().map(|s| self.sort_name(*s)).collect::<Vec<_>>().join(", ")) }
    }
    /// The declarations, one per entry, in an order the tool accepts.
    pub fn items(&self) -> Vec<String> {
        let mut out = vec![];
        for t in &self.types {
            out.push(format!("type {t}"));
        }
        for f in &self.funs {
            out.push(format!("fun {}{}:{}", f.name, self.sorts_txt(&f.args), self.sort_name(f.out)));
        }
        for c in &self.cells {
            out.push(format!("cell {}{}:Message", c.name, self.sorts_txt(&c.args)));
        }
        let macros_at = |k: usize, out: &mut Vec<String>| {
            for m in &self.macros {
                if m.after_steps == k {
                    let ps = if m.params.is_empty() { String::new() } else { format!("({})", self.vars_txt(&m.params)) };
                    out.push(format!("let {}!{ps} = {}", m.name, self.t(&m.body)));
                }
            }
        };
        macros_at(0, &mut out);
        for (i, s) in self.steps.iter().enumerate() {
            let ps = if s.params.is_empty() { String::new() } else { format!("({})", self.vars_txt(&s.params)) };
            let mut x = format!("step {}{ps} {{ {} }} {{ {} }}", s.name, self.t(&s.cond), self.t(&s.msg));
            if !s.assigns.is_empty() {
                let a: Vec<String> = s
                    .assigns
                    .iter()
                    .map(|a| {
                        let fr = if a.fresh.is_empty() { String::new() } else { format!("({}) ", self.vars_txt(&a.fresh)) };
                        format!("{fr}{} <- {}", self.call(&self.cells[a.cell].name, a.args.iter().map(|t| self.t(t)).collect()), self.t(&a.val))
                    })
                    .collect();
                let _ = write!(x, " {{ {} }}", a.join(", "));
            }
            out.push(x);
            macros_at(i + 1, &mut out);
        }
        for o in &self.orders {
            let k = match o.kind {
                OrdKind::Lt => "<",
                OrdKind::Gt => ">",
                OrdKind::Excl => "<>",
            };
            let g = o.guard.as_ref().map(|g| format!("{} => ", self.t(g))).unwrap_or_default();
            let body = format!("{g}{} {k} {}", self.t(&o.l), self.t(&o.r));
            let body = if o.braces { format!("{{ {body} }}") } else { body };
            out.push(format!("order forall ({}) {body}", self.vars_txt(&o.vars)));
        }
        for a in &self.asserts {
            out.push(format!("assert {}", self.t(a)));
        }
        for l in &self.lemmas {
            out.push(format!("lemma {}", self.t(l)));
        }
        if let Some(q) = &self.query {
            out.push(format!("query {}", self.t(q)));
        }
        for c in &self.cryptos {
            out.push(format!("assert-crypto {}", self.crypto_txt(c)));
        }
        out
    }
    pub fn crypto_txt(&self, c: &Crypto) -> String {
        let n = |i: &usize| self.funs[*i].name.clone();
        match c {
            Crypto::Nonce => "nonce".to_string(),
            Crypto::Cells => "memory_cell".to_string(),
            Crypto::Unfolding(o) => if o.is_empty() { "unfolding".into() } else { format!("unfolding [{}]", o.join(" ")) },
            Crypto::EufMac(m, v) => format!("euf-cma {} {}", n(m), n(v)),
            Crypto::UfCma(m, v, h) => format!("uf-cma {} {}{}", n(m), n(v), if *h { " [hmac]" } else { "" }),
            Crypto::EufSig(s, v, k) => format!("euf-cma {} {} {}", n(s), n(v), n(k)),
            Crypto::IntCtxt(e, d, f) => format!("int-ctxt {} {} {}", n(e), n(d), n(f)),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let mut noise = crate::src::Rng::new(self.style.noise);
        for i in self.items() {
            s.push_str(&i);
            if self.style.noise != 0 {
                match noise.below(4) {
                    0 => s.push_str(";\n/* a comment with query false */\n"),
                    1 => s.push_str(" ;\t(* ml ; comment *)\n"),
                    2 => s.push_str(";"),
                    _ => s.push_str(";\n\n"),
                }
                s.push(' ');
            } else {
                s.push_str(";\n");
            }
        }
        s
    }
}
