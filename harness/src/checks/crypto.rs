//! C03: honest executions against a Dolev-Yao attacker satisfy every emitted axiom.
//! C04: forgeries falsify one.
use super::cells::{writes, step_part};
use super::*;
use crate::eval::Ev;
use crate::gen::*;
use crate::model::*;
use crate::proto::*;
use crate::run::*;
use crate::smt::Problem;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C03",
        level: "exploration",
        rule: "a case is non-trivial when an execution with at least one step was judged in which a verification or a decryption of the protocol succeeded, or a name was compared with a message, and no axiom was false",
        families: vec![fam("honest-runs", 3500, 200_000, |s| honest(s, Shape::Small)), fam("deep", 1800, 100_000, |s| honest(s, Shape::Deep)), fam("carried-secrets", 4500, 200_000, |s| honest(s, Shape::Carried))],
    }
}

/// What the attacker can take apart.
pub fn analyse(w: &mut World, known: &[Val]) -> Vec<Val> {
    let mut set: HashSet<Val> = HashSet::new();
    let mut out: Vec<Val> = vec![];
    for v in known {
        if set.insert(*v) {
            out.push(*v);
        }
    }
    let p = w.p.clone();
    loop {
        let mut new = vec![];
        for v in &out {
            if let Some(Node::App(f, a)) = w.arena.get(*v).cloned() {
                match p.funs[f].sem {
                    Sem::Pair => new.extend([a[0], a[1]]),
                    Sem::Enc if derivable(w, &set, a[2], 6) => new.push(a[0]),
                    // signatures and destructors of junk give nothing new
                    _ => {}
                }
            }
        }
        let n = out.len();
        for v in new {
            if set.insert(v) {
                out.push(v);
            }
        }
        if out.len() == n {
            return out;
        }
    }
}
pub fn derivable(w: &World, known: &HashSet<Val>, v: Val, d: usize) -> bool {
    if known.contains(&v) {
        return true;
    }
    if d == 0 {
        return false;
    }
    match w.arena.get(v) {
        Some(Node::App(_, a)) => a.iter().all(|x| !matches!(x, Val::M(_)) || derivable(w, known, *x, d - 1)),
        Some(Node::Empty) | Some(Node::Atk(_)) => true,
        Some(Node::Opaque(_, a)) => a.iter().all(|x| !matches!(x, Val::M(_)) || derivable(w, known, *x, d - 1)),
        _ => false,
    }
}
/// a message the attacker can build
pub fn dy(w: &mut World, s: &mut Src, kn: &[Val], d: usize) -> Val {
    if d == 0 || s.chance(1, 2) {
        // the latest messages are the most interesting ones
        return if s.chance(1, 5) {
            let k = s.below(2) as u32;
            w.arena.mk(Node::Atk(k))
        } else {
            kn[kn.len() - 1 - s.below(kn.len())]
        };
    }
    let p = w.p.clone();
    let fs: Vec<usize> = (0..p.funs.len()).filter(|i| p.funs[*i].out == Sort::Msg).collect();
    let pairs: Vec<usize> = fs.iter().copied().filter(|f| p.funs[*f].sem == Sem::Pair).collect();
    let f = if !pairs.is_empty() && s.chance(1, 2) { pairs[0] } else { *s.pick(&fs) };
    let mut a = vec![];
    for srt in &p.funs[f].args {
        a.push(match srt {
            Sort::Msg => dy(w, s, kn, d - 1),
            Sort::Bool => Val::B(s.chance(1, 2)),
            srt => {
                let dm = w.sort_dom(*srt);
                *s.pick(&dm)
            }
        });
    }
    w.apply(f, &a)
}
/// an input that makes some verification or decryption of the k-th step go through, if one is found quickly
pub fn helpful(w: &mut World, s: &mut Src, k: usize, kn: &[Val]) -> Option<Val> {
    let p = w.p.clone();
    let tags: Vec<Val> = kn.iter().copied().filter(|v| matches!(w.arena.get(*v), Some(Node::App(f, _)) if matches!(p.funs[*f].sem, Sem::Mac | Sem::Sign | Sem::Enc))).collect();
    // keys the attacker knows
    let names: Vec<Val> = kn.iter().copied().filter(|v| matches!(w.arena.get(*v), Some(Node::Name(..)))).collect();
    if tags.is_empty() && names.is_empty() {
        return None;
    }
    let pair = p.funs.iter().position(|f| f.sem == Sem::Pair);
    let (old_in, old_te, old_amb) = (w.input[k], w.too_early, w.ambiguous_find);
    let (rc, rm) = (w.ready_cells, w.ready_msgs);
    let mut found = None;
    let trial = |w: &mut World, v: Val| {
        w.input[k] = v;
        w.ready = k;
        w.log = Some(Default::default());
        step_part(w, k);
        writes(w, k);
        let n = w.logged_successes();
        let mut l: Vec<(usize, Vec<Val>, Val)> = w.log.take().unwrap().into_iter().collect();
        l.sort();
        (n, l)
    };
    // what does the step do with an unknown input ?
    let x = w.arena.mk(Node::Atk(9));
    let (_, seen) = trial(w, x);
    let set: HashSet<Val> = kn.iter().copied().collect();
    let mut goals: Vec<(Val, Option<Val>, usize, Val)> = vec![];
    for (f, a, v) in &seen {
        match p.funs[*f].sem {
            Sem::Verify(m) => goals.push((a[0], Some(a[1]), m, a[2])),
            Sem::VerifySig(g, _) => {
                if let Some(Node::App(_, b)) = w.arena.get(a[2]) {
                    if let Some(k) = b.first().copied() {
                        goals.push((a[0], Some(a[1]), g, k));
                    }
                }
            }
            Sem::Dec(e, _) => goals.push((a[0], None, e, a[1])),
            Sem::Mac => goals.push((x, Some(*v), *f, a[1])),
            _ => {}
        }
    }
    for _ in 0..8 {
        if goals.is_empty() {
            break;
        }
        let (sig, m, prim, key) = *s.pick(&goals);
        // a tag made with that key: one that was sent, or a new one when the key is known
        let own: Vec<Val> = tags.iter().copied().filter(|t| matches!(w.arena.get(*t), Some(Node::App(f, a)) if *f == prim && *a.last().unwrap() == key)).collect();
        let t = if !own.is_empty() && (!set.contains(&key) || s.chance(1, 2)) {
            *s.pick(&own)
        } else if set.contains(&key) {
            let plain = match m {
                Some(m) if derivable(w, &set, m, 6) => m,
                _ => kn[s.below(kn.len())],
            };
            if p.funs[prim].sem == Sem::Enc {
                let r = kn[s.below(kn.len())];
                w.apply(prim, &[plain, r, key])
            } else {
                w.apply(prim, &[plain, key])
            }
        } else {
            continue;
        };
        let inside = match w.arena.get(t) {
            Some(Node::App(_, a)) => a[0],
            _ => continue,
        };
        // fit the tag and its content in the places of the input where they are expected
        let mut parts: [Option<Val>; 3] = [None; 3];
        for (place, v) in [(Some(sig), t), (m, inside)] {
            let Some(place) = place else { continue };
            let slot = if place == x {
                0
            } else {
                match w.arena.get(place) {
                    Some(Node::App(f, a)) if a.len() == 1 && a[0] == x && matches!(p.funs[*f].sem, Sem::Fst(_)) => 1,
                    Some(Node::App(f, a)) if a.len() == 1 && a[0] == x && matches!(p.funs[*f].sem, Sem::Snd(_)) => 2,
                    _ => continue,
                }
            };
            parts[slot].get_or_insert(v);
        }
        let v = match (parts, pair) {
            ([Some(v), None, None], _) => v,
            ([None, a, b], Some(pr)) if a.is_some() || b.is_some() => {
                let a = a.unwrap_or(kn[s.below(kn.len())]);
                let b = b.unwrap_or(kn[s.below(kn.len())]);
                w.apply(pr, &[a, b])
            }
            _ => continue,
        };
        // only what the attacker has
        if !derivable(w, &set, v, 6) {
            continue;
        }
        if trial(w, v).0 > 0 {
            found = Some(v);
            break;
        }
    }
    w.input[k] = old_in;
    w.too_early = old_te;
    w.ambiguous_find = old_amb;
    w.ready = k - 1;
    w.ready_cells = rc;
    w.ready_msgs = rm;
    found
}
fn public(w: &mut World) -> Vec<Val> {
    let p = w.p.clone();
    let mut v = vec![w.arena.mk(Node::Empty), w.arena.mk(Node::Atk(0))];
    for (f, d) in p.funs.iter().enumerate() {
        if d.args.is_empty() && d.out == Sort::Msg {
            v.push(w.apply(f, &[]));
        }
    }
    v
}
/// Run the protocol on the trace of `w`; `choose` gives the input of each step from the attacker's knowledge.
/// None: the run reads something that does not exist yet; otherwise the number of verifications and decryptions that went through
pub fn run_protocol(w: &mut World, s: &mut Src, choose: &mut dyn FnMut(&mut World, &mut Src, usize, &[Val]) -> Val) -> Option<usize> {
    let empty = w.arena.mk(Node::Empty);
    for t in [&mut w.input, &mut w.msg] {
        t.iter_mut().for_each(|x| *x = empty);
    }
    w.cond.iter_mut().for_each(|x| *x = false);
    w.exec.iter_mut().for_each(|x| *x = false);
    w.too_early = false;
    w.ambiguous_find = false;
    let mut known = public(w);
    let mut successes = 0;
    for k in 1..w.nsteps {
        w.ready = k - 1;
        w.ready_cells = k - 1;
        w.ready_msgs = k - 1;
        if k > 1 {
            let kn = analyse(w, &known);
            w.input[k] = choose(w, s, k, &kn);
        }
        w.ready = k;
        w.log = Some(Default::default());
        let ws = writes(w, k);
        let mut c = w.cells[k - 1].clone();
        let mut seen: std::collections::HashMap<(usize, Vec<Val>), Val> = Default::default();
        for (key, v) in ws {
            if seen.insert(key.clone(), v).is_some_and(|o| o != v) {
                // two writes that disagree
                return None;
            }
            c.insert(key, v);
        }
        w.cells[k] = c;
        w.ready_cells = k;
        let (m, cd) = step_part(w, k);
        successes += w.logged_successes();
        w.log = None;
        w.msg[k] = m;
        w.cond[k] = cd;
        w.exec[k] = cd && (k == 1 || w.exec[k - 1]);
        known.push(m);
    }
    w.ready = usize::MAX;
    w.ready_cells = usize::MAX;
    w.ready_msgs = usize::MAX;
    if w.too_early || w.ambiguous_find { None } else { Some(successes) }
}
pub fn crypto_cfg(deep: bool) -> Cfg {
    let b = Cfg { roles: true, msg_quant: false, max_cells: 1, multi_assign: false, ..Cfg::full() };
    if deep { Cfg { depth: 4, max_steps: 3, ..b } } else { Cfg { depth: 2, max_steps: 2, max_macros: 1, ..b } }
}
/// a protocol with crypto assertions; asserts and query mention terms but their truth is neutralised
pub fn crypto_proto(s: &mut Src, deep: bool) -> Proto {
    let mut g = Gen::new(s, crypto_cfg(deep));
    g.p.funs.push(Fun { name: "qq".into(), args: vec![], out: Sort::Bool, sem: Sem::Free });
    g.signature();
    g.crypto();
    g.steps();
    g.orders();
    let qq = Term::Fun(0, vec![]);
    let d = g.cfg.depth;
    let t = if g.s.chance(1, 3) { Some(g.formula(d)) } else { None };
    g.p.query = Some(match t {
        Some(t) => Term::Op(Op::And, vec![qq.clone(), t]),
        None => qq.clone(),
    });
    if g.s.chance(1, 4) {
        let t = g.formula(d);
        g.p.asserts.push(Term::Op(Op::Or, vec![Term::Not(Box::new(qq)), t]));
    }
    std::mem::take(&mut g.p)
}
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Small,
    Deep,
    Carried,
}
/// A protocol in which a key, a name or something authenticated gets out through cells, other steps, macros, finds...,
/// and is then checked.
fn carried_proto(s: &mut Src) -> Proto {
    let mut g = Gen::new(s, Cfg { max_cells: 2, max_macros: 1, max_steps: 3, depth: 2, ..crypto_cfg(false) });
    g.p.funs.push(Fun { name: "qq".into(), args: vec![], out: Sort::Bool, sem: Sem::Free });
    g.signature();
    g.crypto();
    if g.p.cells.is_empty() {
        let a = g.idx_sort();
        let args = if g.s.chance(1, 2) { vec![a] } else { vec![] };
        g.p.cells.push(CellD { name: "ce0".into(), args });
    }
    let nt = g.p.types.len();
    let sorts: Vec<Sort> = (0..nt).map(Sort::Idx).collect();
    // what gets out
    let kinds = [Sem::Mac, Sem::Sign, Sem::Enc];
    let prims: Vec<usize> = (0..g.p.funs.len()).filter(|f| kinds.contains(&g.p.funs[*f].sem)).collect();
    // nothing but: made, carried, sent, then checked
    let direct = !prims.is_empty() && g.s.chance(1, 2);
    let prim = if prims.is_empty() { 0 } else { *g.s.pick(&prims) };
    let fams: &[&str] = match prims.is_empty() || !direct && g.s.chance(1, 5) {
        true => &["n", "k", "kk"],
        false => if g.p.funs[prim].sem == Sem::Enc { &["kc"] } else { &["k", "kk"] },
    };
    let cands: Vec<usize> = (0..g.p.funs.len()).filter(|i| fams.contains(&g.p.funs[*i].name.as_str())).collect();
    let key = *g.s.pick(&cands);
    let key_args = g.p.funs[key].args.clone();
    let cell = g.s.below(g.p.cells.len());
    let n = if direct { 3 } else { g.s.range(2, 3) };
    // 0: written in a cell, then read; 1: output of another step, referred to; 2: macro; 3: direct
    let path = g.s.weighted(&[4, 2, 2, 1]);
    let through_two = g.p.cells.len() > 1 && path == 0 && n == 3 && g.s.chance(1, 2);
    let mut mac = None;
    let mut tag: Option<(usize, Term)> = None;
    for k in 0..n {
        let params = g.fresh_many(&sorts);
        let mut c = Ctx { ta: true, nsteps: k, nmacros: g.p.macros.len(), step: Some((k, params.clone())), ..Default::default() };
        for v in &params {
            c = c.bind(v);
        }
        let me = Term::Step(k, params.iter().map(|v| Term::Var(v.id)).collect());
        let arg = |x: &Sort| Term::Var(params.iter().find(|v| v.sort == *x).unwrap().id);
        let mut secret = Term::Fun(key, key_args.iter().map(arg).collect());
        let mut msg = Term::Empty;
        let mut cond = Term::True;
        let mut assigns = vec![];
        let last = k + 1 == n;
        if k == 0 || !direct && g.s.chance(1, 6) {
            let own: Vec<usize> = prims.iter().copied().filter(|f| (g.p.funs[*f].sem == Sem::Enc) == (fams[0] == "kc")).collect();
            if direct && g.s.chance(3, 4) || !direct && !own.is_empty() && g.s.chance(2, 5) {
                // not the key itself but something made with it
                let f = if direct { prim } else { *g.s.pick(&own) };
                let m = if g.s.chance(1, 2) { Term::In } else { g.pool(&c, 1) };
                g.recent.push((f, m.clone(), key));
                tag = Some((f, m.clone()));
                secret = if g.p.funs[f].sem == Sem::Enc {
                    let rn = g.p.funs.iter().position(|f| f.name == "rn").unwrap();
                    let r = Term::Fun(rn, g.p.funs[rn].args.iter().map(arg).collect());
                    Term::Fun(f, vec![m, r, secret])
                } else {
                    Term::Fun(f, vec![m, secret])
                };
            }
            let x = wrap(&mut g, &c, secret.clone());
            match path {
                0 => assigns.push(Assign { fresh: vec![], cell, args: g.p.cells[cell].args.iter().map(arg).collect(), val: x }),
                1 => msg = x,
                2 => {
                    let has_in = format!("{x:?}").contains("In");
                    if has_in {
                        msg = x;
                    } else {
                        let nm = format!("mm{}", g.p.macros.len());
                        // macros see their parameters only
                        g.p.macros.push(MacroD { name: nm, params: params.clone(), body: x, after_steps: k });
                        mac = Some((g.p.macros.len() - 1, sorts.clone()));
                    }
                }
                _ => msg = x,
            }
        }
        if k > 0 && !(last && (direct || g.s.chance(1, 2))) || (last && n == 2 && g.s.chance(1, 2)) {
            let prev = Term::Step(k.saturating_sub(1), params.iter().map(|v| Term::Var(v.id)).collect());
            let from = if through_two && k > 1 { (cell + 1) % g.p.cells.len() } else { cell };
            let x = match path {
                0 => {
                    let t = g.p.cells[from].args.iter().map(arg).collect();
                    let at = if g.s.chance(2, 3) { Term::Pred(Box::new(me.clone())) } else { prev };
                    Term::Cell(from, t, Box::new(at))
                }
                1 if k > 0 => if g.s.chance(1, 2) { Term::MsgF(Box::new(prev)) } else { Term::MsgM(k - 1, params.iter().map(|v| Term::Var(v.id)).collect()) },
                2 if mac.is_some() => {
                    let (m, srt) = mac.clone().unwrap();
                    Term::Macro(m, srt.iter().map(arg).collect())
                }
                _ => Term::Empty,
            };
            if through_two && k == 1 {
                let to = (cell + 1) % g.p.cells.len();
                let x = wrap(&mut g, &c, x);
                assigns.push(Assign { fresh: vec![], cell: to, args: g.p.cells[to].args.iter().map(arg).collect(), val: x });
            } else {
                msg = wrap(&mut g, &c, x);
            }
        }
        if last || !direct && g.s.chance(1, 5) {
            cond = if prims.is_empty() || !direct && g.s.chance(1, 4) {
                let nm = Term::Fun(key, key_args.iter().map(arg).collect());
                let eq = if g.s.chance(1, 2) { vec![Term::In, nm] } else { vec![nm, Term::In] };
                Term::Op(Op::Eq, eq)
            } else if let (Some((f, m)), true) = (tag.clone().or(direct.then_some((prim, Term::Empty))), direct || g.s.chance(2, 3)) {
                let key = Term::Fun(key, key_args.iter().map(arg).collect());
                match plain_check(&mut g, f, &m, key) {
                    Some(x) => x,
                    None => g.role_bool(&c, 1),
                }
            } else {
                g.role_bool(&c, 1)
            };
        }
        if !direct && g.s.chance(1, 4) && cond == Term::True {
            cond = g.boolean(&c, 1);
        }
        g.p.steps.push(StepD { name: format!("s{k}"), params, cond, msg, assigns });
    }
    let qq = Term::Fun(0, vec![]);
    g.p.query = Some(qq);
    std::mem::take(&mut g.p)
}
/// check in the input what was made with `f` from `m` and the key
fn plain_check(g: &mut Gen, f: usize, m: &Term, key: Term) -> Option<Term> {
    let prj: Vec<usize> = ["fst", "snd"].iter().filter_map(|n| g.p.funs.iter().position(|f| f.name == *n)).collect();
    let t = if prj.len() == 2 && g.s.chance(1, 3) { Term::Fun(prj[g.s.below(2)], vec![Term::In]) } else { Term::In };
    let m = if !crate::gen::ground(m) || format!("{m:?}").contains("In") || prj.len() == 2 && g.s.chance(1, 4) {
        match &t {
            Term::Fun(p, _) => Term::Fun(if *p == prj[0] { prj[1] } else { prj[0] }, vec![Term::In]),
            _ => return None,
        }
    } else {
        m.clone()
    };
    let check = g.fun_of(|s| matches!(s, Sem::Verify(x) | Sem::VerifySig(x, _) | Sem::Dec(x, _) if x == f))?;
    let b = match g.p.funs[check].sem {
        Sem::Verify(_) if g.s.chance(1, 4) => {
            let h = Term::Fun(f, vec![m, key]);
            Term::Op(Op::Eq, if g.s.chance(1, 2) { vec![t, h] } else { vec![h, t] })
        }
        Sem::Verify(_) => Term::Fun(check, vec![t, m, key]),
        Sem::VerifySig(_, pk) => Term::Fun(check, vec![t, m, Term::Fun(pk, vec![key])]),
        Sem::Dec(_, fail) => {
            let d = Term::Fun(check, vec![t, key]);
            Term::Not(Box::new(Term::Op(Op::Eq, vec![d, Term::Fun(fail, vec![])])))
        }
        _ => return None,
    };
    Some(b)
}
fn wrap(g: &mut Gen, c: &Ctx, t: Term) -> Term {
    match g.s.below(8) {
        0 => {
            let b = g.boolean(c, 1);
            let y = g.pool(c, 1);
            Term::If(Box::new(if g.s.chance(1, 2) { (b, t, y) } else { (b, y, t) }))
        }
        1 => {
            let v = g.fresh(Sort::Msg);
            if c.scope.iter().any(|w| w.name == v.name) {
                return t;
            }
            Term::Let(v.clone(), Box::new((t, Term::Var(v.id))))
        }
        2 => match g.fun_of(|s| s == Sem::Pair) {
            Some(f) => {
                let y = g.pool(c, 1);
                Term::Fun(f, if g.s.chance(1, 2) { vec![t, y] } else { vec![y, t] })
            }
            None => t,
        },
        3 => {
            let srt = g.idx_sort();
            let v = g.fresh(srt);
            if c.scope.iter().any(|w| w.name == v.name) {
                return t;
            }
            let b = g.boolean(&c.bind(&v), 1);
            Term::Find(vec![v], Box::new((b, t, Term::Empty)))
        }
        _ => t,
    }
}
/// one instance of each step, in the order of the declarations
pub fn in_order(p: &Arc<Proto>, s: &mut Src) -> World {
    let dom: Vec<u8> = p.types.iter().map(|_| s.range(1, 2) as u8).collect();
    let same: Vec<u8> = dom.iter().map(|d| s.below(*d as usize) as u8).collect();
    let mut insts = vec![];
    for (k, st) in p.steps.iter().enumerate() {
        if st.name == "init" {
            continue;
        }
        let a = st.params.iter().map(|v| if let Sort::Idx(i) = v.sort { if s.chance(5, 6) { same[i] } else { s.below(dom[i] as usize) as u8 } } else { 0 }).collect();
        insts.push((k, a));
    }
    let seed = s.below(1 << 16) as u64;
    World::linear(p.clone(), dom, &insts, seed)
}
/// what the quantifiers over messages range over
fn prepare(ev: &mut Ev, universe: Vec<Val>, s: &mut Src) {
    ev.crypto = true;
    ev.budget = 1500;
    ev.universe = universe;
    if ev.symbolic {
        ev.universe = ev.some_terms();
        ev.tank = 3000;
        let p = ev.p;
        for a in &p.asserts {
            ev.assertion(a);
        }
        let mut u = ev.some_terms();
        u.extend(ev.relevant_terms(s, 7));
        u.sort();
        u.dedup();
        ev.universe = u;
        ev.tank = 20_000;
    }
}
fn honest(s: &mut Src, shape: Shape) -> Case {
    let mut p = match shape {
        Shape::Carried => carried_proto(s),
        _ => crypto_proto(s, shape == Shape::Deep),
    };
    if p.cryptos.is_empty() {
        p.cryptos.push(Crypto::Nonce);
    }
    let p = Arc::new(p);
    let text = p.text();
    let mut c = Case::new(text.clone());
    let mut flags: Vec<&str> = ["--no-preprocessing", "--skolemnise", "--legacy-evaluate"].into_iter().filter(|_| s.chance(1, 12)).collect();
    if s.chance(1, 4) {
        flags.push("--symbolic");
        flags.retain(|f| *f != "--skolemnise");
    }
    let smt = match emit(&text, &flags, &["--cvc5"]) {
        Ok(Emit::Ok(t)) => t,
        Ok(Emit::Rejected(o)) => return c.fail("rejected", format!("a well-typed input file is rejected: {}", reason(&o))),
        Err(e) => return c.err(e),
    };
    let prob = match Problem::parse(&smt) {
        Ok(p) => p,
        Err(e) => return c.fail("unparsable", e),
    };
    let mut nontriv = false;
    let rounds = s.range(1, 6);
    for _ in 0..rounds {
        let w = if s.chance(if shape == Shape::Carried { 3 } else { 2 }, 4) { in_order(&p, s) } else { gen_world(&p, s, 2, 4) };
        let mut w = repair_orders(w);
        if time_ok(&mut w).is_err() {
            continue;
        }
        let depth = s.range(1, 3);
        let Some(successes) = run_protocol(&mut w, s, &mut |w, s, k, kn| if s.chance(3, 4) { helpful(w, s, k, kn).unwrap_or_else(|| dy(w, s, kn, depth)) } else { dy(w, s, kn, depth) }) else {
            c.label("run skipped: reads the future or a find with several witnesses");
            continue;
        };
        let desc = format!("{}; out {:?}", w.describe(), w.msg.iter().map(|v| w.show(*v)).collect::<Vec<_>>());
        let steps = w.nsteps;
        let uni = w.collect_universe(&[]);
        let mut ev = Ev::new(&prob, w, 1);
        prepare(&mut ev, uni, s);
        let mut unk = 0;
        for a in &prob.asserts {
            match ev.assertion(a) {
                Val::B(true) => {}
                Val::B(false) => {
                    c.sample = format!("{text}\nflags {flags:?}\nrun: {desc}");
                    return c.fail("honest-run-excluded", format!("the emitted problem excludes this honest run by {}", a.src));
                }
                _ => unk += 1,
            }
        }
        c.label(if unk > 0 { "run judged (some axiom only sampled)" } else { "run judged" });
        if successes > 0 {
            c.label("with a successful verification or decryption");
        }
        c.sample = format!("{text}\nrun: {desc}");
        nontriv |= steps > 2 && (successes > 0 || p.cryptos.iter().any(|x| matches!(x, Crypto::Nonce)));
    }
    c.nontrivial_if(nontriv);
    c
}

// ---------------------------------------------------------------------------------------------------------------------
/// Evaluate everything that occurs in `t`, whatever branch is taken and for every value of the bound variables.
pub struct Sweep {
    /// applications of functions: function, arguments, value
    pub apps: HashSet<(usize, Vec<Val>, Val)>,
    /// names in the values met
    pub names: HashSet<u32>,
    /// applications met outside `find` and the quantifiers of messages and guards
    pub visible: HashSet<(usize, Vec<Val>)>,
    /// sites of the encryptions with some randomness, with their arguments, and the functions that are once applied to
    /// something else than a name
    pub sites: HashMap<Val, HashSet<(usize, Vec<Val>)>>,
    pub not_name: HashSet<usize>,
    macros: usize,
    undef: bool,
    undef_cells: bool,
    hidden: usize,
    ta: bool,
    budget: usize,
}
impl Sweep {
    pub fn new() -> Sweep {
        Sweep { apps: HashSet::new(), names: HashSet::new(), visible: HashSet::new(), sites: HashMap::new(), not_name: HashSet::new(), macros: 0, undef: false, undef_cells: false, hidden: 0, ta: false, budget: 20_000 }
    }
    pub fn complete(&self) -> bool {
        self.budget > 0
    }
    fn bind(&mut self, w: &mut World, vs: &[Var], e: &mut Env, f: &mut dyn FnMut(&mut Sweep, &mut World, &mut Env)) {
        let sorts: Vec<Sort> = vs.iter().map(|v| v.sort).collect();
        for tup in w.tuples(&sorts) {
            let mut e2 = e.clone();
            for (v, x) in vs.iter().zip(&tup) {
                e2.vars.insert(v.id, *x);
            }
            f(self, w, &mut e2);
        }
    }
    /// a term that is inlined: it is nowhere if the variable it replaces is unused
    fn arg(&mut self, w: &mut World, t: &Term, e: &mut Env, visible: Option<bool>) {
        if let Some(visible) = visible {
            let hidden = self.hidden;
            self.hidden += !visible as usize;
            self.term(w, t, e);
            self.hidden = hidden;
        }
    }
    /// the step that doesn't happen may be any of them
    fn nowhere(&mut self, w: &mut World, k: u8, assigns: bool) {
        if k != 0 || self.undef && (!assigns || self.undef_cells) {
            return;
        }
        self.undef = true;
        self.undef_cells |= assigns;
        let p = w.p.clone();
        for (st, x) in p.steps.iter().enumerate() {
            let sorts: Vec<Sort> = x.params.iter().map(|v| v.sort).collect();
            for vals in w.tuples(&sorts) {
                self.step(w, st, &vals, true, true, assigns);
            }
        }
    }
    pub fn term(&mut self, w: &mut World, t: &Term, e: &mut Env) {
        if self.budget == 0 {
            return;
        }
        self.budget -= 1;
        let p = w.p.clone();
        let (hidden, ta) = (self.hidden, self.ta);
        match t {
            Term::Fun(..) | Term::Op(Op::Eq | Op::Neq, _) | Term::Macro(..) | Term::MsgM(..) | Term::CondM(..) | Term::Let(..) => self.ta = true,
            Term::Find(..) => self.hidden += 1,
            Term::Q(..) if self.ta => self.hidden += 1,
            _ => {}
        }
        match t {
            Term::Fun(_, a) | Term::Op(_, a) | Term::Step(_, a) => a.iter().for_each(|x| self.term(w, x, e)),
            Term::Not(a) | Term::Pred(a) | Term::Input(a) | Term::ExecF(a) | Term::Happens(a) => self.term(w, a, e),
            Term::MsgF(a) | Term::CondF(a) => {
                self.term(w, a, e);
                // the content of that step is part of the term; a step that doesn't happen may be any of them
                let Val::S(k) = w.eval(a, e) else { return };
                self.macros += 1;
                if let Some((st, args)) = super::cells::step_of(w, k as usize).filter(|_| w.happens[k as usize]) {
                    let vals = super::cells::args_of(w, st, &args);
                    self.step(w, st, &vals, matches!(t, Term::MsgF(_)), matches!(t, Term::CondF(_)), false);
                } else {
                    self.nowhere(w, k, false);
                }
                self.macros -= 1;
            }
            Term::If(b) => {
                self.term(w, &b.0, e);
                self.term(w, &b.1, e);
                self.term(w, &b.2, e);
            }
            Term::Lt(b) | Term::Leq(b) | Term::Gt(b) => {
                self.term(w, &b.0, e);
                self.term(w, &b.1, e);
            }
            Term::Find(vs, b) => {
                self.bind(w, vs, e, &mut |s, w, e| {
                    s.term(w, &b.0, e);
                    s.term(w, &b.1, e);
                });
                self.term(w, &b.2, e);
            }
            Term::Let(v, b) => {
                self.arg(w, &b.0, e, live(&p, &b.1, self.ta).get(&v.id).copied());
                let x = w.eval(&b.0, e);
                let mut e2 = e.clone();
                e2.vars.insert(v.id, x);
                self.term(w, &b.1, &mut e2);
            }
            Term::Q(_, vs, b) => self.bind(w, vs, e, &mut |s, w, e| s.term(w, b, e)),
            Term::Macro(m, a) => {
                let mut e2 = Env::default();
                let lv = live(&p, &p.macros[*m].body, self.ta);
                for (v, x) in p.macros[*m].params.iter().zip(a) {
                    self.arg(w, x, e, lv.get(&v.id).copied());
                    let x = w.eval(x, e);
                    e2.vars.insert(v.id, x);
                }
                self.macros += 1;
                self.term(w, &p.macros[*m].body, &mut e2);
                self.macros -= 1;
            }
            Term::MsgM(s, a) | Term::CondM(s, a) => {
                let vals: Vec<Val> = a.iter().map(|x| w.eval(x, e)).collect();
                self.macros += 1;
                self.step(w, *s, &vals, matches!(t, Term::MsgM(..)), matches!(t, Term::CondM(..)), false);
                self.macros -= 1;
            }
            Term::Cell(_, a, s) => {
                a.iter().for_each(|x| self.term(w, x, e));
                self.term(w, s, e);
                let Val::S(k) = w.eval(s, e) else { return };
                self.macros += 1;
                self.nowhere(w, k, true);
                self.macros -= 1;
            }
            _ => {}
        }
        self.hidden = hidden;
        self.ta = ta;
        if self.budget == 0 {
            return;
        }
        let v = w.eval(t, e);
        if let Val::M(i) = v {
            self.names.extend(w.arena.names_in(i).iter().copied());
        }
        if let Term::Fun(f, a) = t {
            let args: Vec<Val> = a.iter().map(|x| w.eval(x, e)).collect();
            for x in &args {
                if let Val::M(i) = x {
                    self.names.extend(w.arena.names_in(*i).iter().copied());
                }
            }
            if p.funs[*f].sem == Sem::Enc {
                let site = if self.macros > 0 { self.budget } else { t as *const Term as usize };
                self.sites.entry(args[1]).or_default().insert((site, args.clone()));
                if !matches!(&a[1], Term::Fun(g, _) if p.funs[*g].sem == Sem::Name) {
                    self.not_name.insert(*f);
                }
            }
            if self.hidden == 0 {
                self.visible.insert((*f, args.clone()));
            }
            self.apps.insert((*f, args, v));
        }
    }
    pub fn step(&mut self, w: &mut World, s: usize, vals: &[Val], msg: bool, cond: bool, assigns: bool) {
        let p = w.p.clone();
        let st = &p.steps[s];
        let ta = std::mem::replace(&mut self.ta, true);
        let mut e = Env::default();
        for (v, x) in st.params.iter().zip(vals) {
            e.vars.insert(v.id, *x);
        }
        e.self_step = Some((s, vals.iter().map(|v| if let Val::I(_, k) = v { *k } else { 0 }).collect()));
        if cond {
            self.term(w, &st.cond, &mut e.clone());
        }
        if msg {
            self.term(w, &st.msg, &mut e.clone());
        }
        if assigns {
            for a in &st.assigns {
                self.bind(w, &a.fresh, &mut e, &mut |s, w, e| {
                    a.args.iter().for_each(|x| s.term(w, x, e));
                    s.term(w, &a.val, e);
                });
            }
        }
        self.ta = ta;
    }
    /// the steps in all their instances, happening or not, the assertions and the query
    pub fn everything(w: &mut World) -> Sweep {
        let mut s = Sweep::new();
        let p = w.p.clone();
        for (k, st) in p.steps.iter().enumerate() {
            let sorts: Vec<Sort> = st.params.iter().map(|v| v.sort).collect();
            for vals in w.tuples(&sorts) {
                s.step(w, k, &vals, true, true, true);
            }
        }
        for t in p.asserts.iter().chain(&p.query) {
            s.term(w, t, &mut Env::default());
        }
        s
    }
}
/// variables that remain in `t` once the macros and the lets are inlined, and whether one occurrence is outside the `find`
/// and quantifiers of terms
fn live(p: &Proto, t: &Term, ta: bool) -> HashMap<usize, bool> {
    fn add(out: &mut HashMap<usize, bool>, m: HashMap<usize, bool>) {
        for (k, v) in m {
            *out.entry(k).or_insert(false) |= v;
        }
    }
    let mut out = HashMap::new();
    let inside = |m: HashMap<usize, bool>, v: bool| -> HashMap<usize, bool> { m.into_iter().map(|(k, x)| (k, x && v)).collect() };
    match t {
        Term::Var(v) => {
            out.insert(*v, true);
        }
        Term::Fun(_, a) => a.iter().for_each(|x| add(&mut out, live(p, x, true))),
        Term::Op(o, a) => a.iter().for_each(|x| add(&mut out, live(p, x, ta || matches!(o, Op::Eq | Op::Neq)))),
        Term::Step(_, a) | Term::MsgM(_, a) | Term::CondM(_, a) => a.iter().for_each(|x| add(&mut out, live(p, x, ta))),
        Term::Macro(m, a) => {
            let l = live(p, &p.macros[*m].body, true);
            for (v, x) in p.macros[*m].params.iter().zip(a) {
                if let Some(vis) = l.get(&v.id) {
                    add(&mut out, inside(live(p, x, true), *vis));
                }
            }
        }
        Term::Not(a) | Term::Pred(a) | Term::Input(a) | Term::MsgF(a) | Term::CondF(a) | Term::ExecF(a) | Term::Happens(a) => out = live(p, a, ta),
        Term::Q(_, vs, a) => {
            out = inside(live(p, a, ta), !ta);
            vs.iter().for_each(|v| {
                out.remove(&v.id);
            });
        }
        Term::If(b) => [&b.0, &b.1, &b.2].into_iter().for_each(|x| add(&mut out, live(p, x, ta))),
        Term::Find(vs, b) => {
            [&b.0, &b.1].into_iter().for_each(|x| add(&mut out, inside(live(p, x, true), false)));
            vs.iter().for_each(|v| {
                out.remove(&v.id);
            });
            add(&mut out, inside(live(p, &b.2, true), false));
        }
        Term::Let(v, b) => {
            out = live(p, &b.1, true);
            if let Some(vis) = out.remove(&v.id) {
                add(&mut out, inside(live(p, &b.0, true), vis));
            }
        }
        Term::Lt(b) | Term::Leq(b) | Term::Gt(b) => [&b.0, &b.1].into_iter().for_each(|x| add(&mut out, live(p, x, ta))),
        Term::Cell(_, a, s) => {
            a.iter().for_each(|x| add(&mut out, live(p, x, ta)));
            add(&mut out, live(p, s, ta));
        }
        _ => {}
    }
    out
}
fn walk(p: &Proto, t: &Term, ok: &dyn Fn(usize, usize, usize) -> bool, used: &mut HashSet<usize>, parent: Option<(usize, usize)>) {
    // `used`: name functions met in a position that `ok` does not allow
    match t {
        Term::Fun(f, a) => {
            if p.funs[*f].sem == Sem::Name && !parent.is_some_and(|(g, i)| ok(*f, g, i)) {
                used.insert(*f);
            }
            for (i, x) in a.iter().enumerate() {
                walk(p, x, ok, used, Some((*f, i)));
            }
        }
        Term::Op(_, a) | Term::Step(_, a) | Term::Macro(_, a) | Term::MsgM(_, a) | Term::CondM(_, a) => a.iter().for_each(|x| walk(p, x, ok, used, None)),
        Term::Not(a) | Term::Pred(a) | Term::Input(a) | Term::MsgF(a) | Term::CondF(a) | Term::ExecF(a) | Term::Happens(a) | Term::Q(_, _, a) => walk(p, a, ok, used, None),
        Term::If(b) | Term::Find(_, b) => {
            walk(p, &b.0, ok, used, None);
            walk(p, &b.1, ok, used, None);
            walk(p, &b.2, ok, used, None);
        }
        Term::Let(_, b) | Term::Lt(b) | Term::Leq(b) | Term::Gt(b) => {
            walk(p, &b.0, ok, used, None);
            walk(p, &b.1, ok, used, None);
        }
        Term::Cell(_, a, s) => {
            a.iter().for_each(|x| walk(p, x, ok, used, None));
            walk(p, s, ok, used, None);
        }
        _ => {}
    }
}
/// name functions used somewhere else than as a key of the given primitives
fn leaked(p: &Proto, ok: &dyn Fn(usize, usize, usize) -> bool) -> HashSet<usize> {
    let mut used = HashSet::new();
    for s in &p.steps {
        walk(p, &s.cond, ok, &mut used, None);
        walk(p, &s.msg, ok, &mut used, None);
        for a in &s.assigns {
            walk(p, &a.val, ok, &mut used, None);
            a.args.iter().for_each(|x| walk(p, x, ok, &mut used, None));
        }
    }
    for m in &p.macros {
        walk(p, &m.body, ok, &mut used, None);
    }
    for t in p.asserts.iter().chain(&p.query) {
        walk(p, t, ok, &mut used, None);
    }
    used
}
pub fn check04() -> Check {
    Check {
        id: "C04",
        level: "exploration",
        rule: "a case is non-trivial when an execution with a forged verification, a forged decryption or a guessed name was judged, in a situation where the assumption applies (key only used as a key and nothing with this content authenticated by anyone)",
        families: vec![
            fam("forged-verification", 4500, 200_000, |s| forged(s, Forge::Verify)),
            fam("forged-decryption", 4500, 200_000, |s| forged(s, Forge::Dec)),
            fam("guessed-name", 2000, 120_000, |s| forged(s, Forge::Guess)),
        ],
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Forge {
    Verify,
    Dec,
    Guess,
}
fn forged(s: &mut Src, kind: Forge) -> Case {
    let deep = s.chance(1, 3);
    let usable = |p: &Proto| {
        p.cryptos.iter().any(|x| match x {
            Crypto::EufMac(..) | Crypto::EufSig(..) | Crypto::UfCma(_, _, false) => kind == Forge::Verify,
            Crypto::IntCtxt(..) => kind == Forge::Dec,
            Crypto::Nonce => kind == Forge::Guess,
            _ => false,
        })
    };
    let mut p = Proto::default();
    for _ in 0..6 {
        p = if s.chance(1, 3) { carried_proto(s) } else { crypto_proto(s, deep) };
        if usable(&p) {
            break;
        }
    }
    if kind == Forge::Guess && !usable(&p) {
        p.cryptos.push(Crypto::Nonce);
    }
    let text = p.text();
    let p = Arc::new(p);
    let mut c = Case::new(text.clone());
    if !usable(&p) {
        c.label("no such assumption");
        c.nontrivial_if(false);
        return c;
    }
    let flags: &[&str] = if s.chance(1, 4) { &["--symbolic"] } else { &[] };
    let smt = match emit(&text, flags, &["--cvc5"]) {
        Ok(Emit::Ok(t)) => t,
        Ok(Emit::Rejected(o)) => return c.fail("rejected", format!("a well-typed input file is rejected: {}", reason(&o))),
        Err(e) => return c.err(e),
    };
    let prob = match Problem::parse(&smt) {
        Ok(p) => p,
        Err(e) => return c.fail("unparsable", e),
    };
    let mut nontriv = false;
    for _ in 0..s.range(1, 4) {
        let mut w = repair_orders(gen_world(&p, s, 2, 4));
        if time_ok(&mut w).is_err() {
            continue;
        }
        let depth = s.range(1, 3);
        if run_protocol(&mut w, s, &mut |w, s, _, kn| dy(w, s, kn, depth)).is_none() {
            c.label("run skipped");
            continue;
        }
        let what = match kind {
            Forge::Guess => guess(&mut w, s),
            _ => forge(&mut w, s, kind),
        };
        let Some(what) = what else {
            c.label("nothing to forge");
            continue;
        };
        let desc = format!("{}; {what}", w.describe());
        let uni = w.collect_universe(&[]);
        let mut ev = Ev::new(&prob, w, 1);
        prepare(&mut ev, uni, s);
        let hit = prob.asserts.iter().any(|a| ev.assertion(a) == Val::B(false));
        c.sample = format!("{text}\nflags {flags:?}\nrun: {desc}");
        if !hit && ev.exhausted {
            c.label("undecided (too many bindings)");
            continue;
        }
        if !hit {
            return c.fail("forgery-allowed", format!("the emitted problem has a model where {what}"));
        }
        c.label("forgery excluded");
        nontriv = true;
    }
    c.nontrivial_if(nontriv);
    c
}
/// run again with the same inputs
fn rerun(w: &mut World, s: &mut Src) -> bool {
    let ins = w.input.clone();
    run_protocol(w, s, &mut |_, _, k, _| ins[k]).is_some()
}
fn forge(w: &mut World, s: &mut Src, kind: Forge) -> Option<String> {
    forge_in(w, s, kind, None)
}
/// `among`: only at these places
pub fn forge_in(w: &mut World, s: &mut Src, kind: Forge, among: Option<&HashSet<(usize, Vec<Val>)>>) -> Option<String> {
    let p = w.p.clone();
    // primitives under an assumption: check -> (constructor, allowed key positions)
    let mut schemes: Vec<(usize, usize, Vec<(usize, usize)>)> = vec![];
    for c in &p.cryptos {
        match c {
            Crypto::EufMac(m, v) | Crypto::UfCma(m, v, false) if kind == Forge::Verify => schemes.push((*v, *m, vec![(*m, 1), (*v, 2)])),
            Crypto::EufSig(g, v, k) if kind == Forge::Verify => schemes.push((*v, *g, vec![(*g, 1), (*k, 0)])),
            Crypto::IntCtxt(e, d, _) if kind == Forge::Dec => schemes.push((*d, *e, vec![(*e, 2), (*d, 1)])),
            _ => {}
        }
    }
    let sw = Sweep::everything(w);
    if !sw.complete() {
        return None;
    }
    let mut cand = vec![];
    for (check, cons, pos) in &schemes {
        let bad = leaked(&p, &|_, g, i| pos.contains(&(g, i)));
        for (f, a, v) in &sw.apps {
            if among.is_some_and(|x| !x.contains(&(*f, a.clone()))) {
                continue;
            }
            if f != check || !sw.visible.contains(&(*f, a.clone())) {
                continue;
            }
            let key = match w.arena.get(*a.last().unwrap()) {
                Some(Node::App(g, b)) if p.funs[*g].sem == Sem::Pk => b[0],
                _ => *a.last().unwrap(),
            };
            match w.arena.get(key) {
                Some(Node::Name(k, _)) if !bad.contains(k) => {}
                _ => continue,
            }
            if !applies(w, &sw, kind, *cons, a, key) {
                continue;
            }
            cand.push((*f, a.clone(), *v, *cons, key));
        }
    }
    cand.sort();
    if cand.is_empty() {
        return None;
    }
    let (f, a, _, cons, key) = s.pick(&cand).clone();
    let forged_value = if kind == Forge::Dec {
        let x = if s.chance(1, 2) { w.arena.mk(Node::Atk(1)) } else { w.arena.mk(Node::Empty) };
        w.forged_dec.insert((f, a.clone()), x);
        format!(" = {}", w.show(x))
    } else {
        w.forged_verify.insert((f, a.clone()));
        String::new()
    };
    if !rerun(w, s) {
        return None;
    }
    let sw = Sweep::everything(w);
    // still computed, still a forgery
    if !sw.complete() || !sw.visible.contains(&(f, a.clone())) || !applies(w, &sw, kind, cons, &a, key) {
        return None;
    }
    Some(format!("{}({}){} is a forgery", p.funs[f].name, a.iter().map(|x| w.show(*x)).collect::<Vec<_>>().join(", "), forged_value))
}
/// the assumption says that this cannot happen
fn applies(w: &World, sw: &Sweep, kind: Forge, cons: usize, a: &[Val], key: Val) -> bool {
    if kind == Forge::Dec {
        // every encryption of the protocol uses names, each at one place for one message and one key (this is a syntactic
        // condition), and nothing in it is this ciphertext
        !sw.not_name.contains(&cons)
            && sw.sites.values().all(|v| v.len() == 1)
            && sw.apps.iter().filter(|x| x.0 == cons).all(|(_, b, v)| matches!(w.arena.get(b[1]), Some(Node::Name(..))) && !(*v == a[0] && b[2] == key))
    } else {
        // (signature, message, key): nobody authenticated this message with this key
        !sw.apps.iter().any(|(g, b, _)| *g == cons && b[0] == a[1] && b[1] == key)
    }
}
/// an input that is a name nobody used before
fn guess(w: &mut World, s: &mut Src) -> Option<String> {
    if w.nsteps <= 2 {
        return None;
    }
    let k = s.range(2, w.nsteps - 1);
    let mut sw = Sweep::new();
    for j in 1..k {
        if let Some((st, a)) = super::cells::step_of(w, j) {
            let vals = super::cells::args_of(w, st, &a);
            sw.step(w, st, &vals, true, true, true);
        }
        if let Val::M(i) = w.input[j] {
            sw.names.extend(w.arena.names_in(i).iter().copied());
        }
    }
    if !sw.complete() {
        return None;
    }
    let free: Vec<Val> = w.all_names().into_iter().filter(|v| if let Val::M(i) = v { !sw.names.contains(i) } else { false }).collect();
    if free.is_empty() {
        return None;
    }
    w.input[k] = *s.pick(&free);
    if !rerun(w, s) {
        return None;
    }
    Some(format!("the attacker sends {} at {} before anybody used it", w.show(w.input[k]), w.show(Val::S(k as u8))))
}
