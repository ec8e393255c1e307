//! Which values flow into which: a small reference model of data flow, worked
//! out once on the ONNX graph and once on the generated source.
//!
//! A *mark* stands for a weight or for a graph input. The set of a value holds
//! the marks it is computed from. For every weight, `up` holds the marks its
//! value is combined with at the operations it enters directly. Nothing here
//! depends on which Rust expressions spell an operation.
use crate::onnx::{self, Ext, F, fields};
use std::collections::{BTreeMap, BTreeSet};

pub type Set = BTreeSet<String>;
#[derive(Default, Debug, Clone)]
pub struct Flow {
    pub up: BTreeMap<String, Set>,
    pub outs: Vec<Set>,
    /// Marks of inputs in order.
    pub ins: Vec<String>,
    /// Something was met that is not understood.
    pub odd: Option<String>,
}
impl Flow {
    /// An operation combines `parts`.
    fn mix(&mut self, parts: &[&Set]) -> Set {
        for (i, p) in parts.iter().enumerate() {
            if p.len() == 1 {
                let m = p.iter().next().unwrap();
                if m.starts_with('@') {
                    continue;
                }
                let u = self.up.entry(m.clone()).or_default();
                for (j, q) in parts.iter().enumerate() {
                    if i != j {
                        u.extend(q.iter().filter(|x| *x != m).cloned());
                    }
                }
            }
        }
        parts.iter().flat_map(|p| p.iter().cloned()).collect()
    }
}

// ---- ONNX side ----------------------------------------------------------

#[derive(Default, Clone, Debug)]
struct N {
    op: String,
    ins: Vec<String>,
    outs: Vec<String>,
    graphs: BTreeMap<String, G>,
    tensor: Option<onnx::Found>,
    n_scan: usize,
}
#[derive(Default, Clone, Debug)]
struct G {
    nodes: Vec<N>,
    inits: Vec<onnx::Found>,
    /// name, element type, rank
    ins: Vec<(String, u64, usize)>,
    outs: Vec<String>,
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn graph(b: &[u8], ext: &Ext) -> Option<G> {
    let mut g = G::default();
    for (f, v) in fields(b)? {
        let F::B(v) = v else { continue };
        match f {
            1 => {
                let mut n = N::default();
                for (f, v) in fields(v)? {
                    let F::B(v) = v else { continue };
                    match f {
                        1 => n.ins.push(text(v)),
                        2 => n.outs.push(text(v)),
                        4 => n.op = text(v),
                        5 => {
                            let (mut name, mut int) = (String::new(), 0);
                            let mut sub = None;
                            for (f, v) in fields(v)? {
                                match (f, v) {
                                    (1, F::B(s)) => name = text(s),
                                    (3, F::V(i)) => int = i,
                                    (5, F::B(t)) => n.tensor = onnx::read_tensor(t, ext),
                                    (6, F::B(s)) => sub = Some(graph(s, ext)?),
                                    _ => {}
                                }
                            }
                            if name == "num_scan_inputs" {
                                n.n_scan = int as usize;
                            }
                            if let Some(s) = sub {
                                n.graphs.insert(name, s);
                            }
                        }
                        _ => {}
                    }
                }
                g.nodes.push(n);
            }
            5 => g.inits.extend(onnx::read_tensor(v, ext)),
            11 | 12 => {
                let (mut name, mut et, mut rank) = (String::new(), 0, usize::MAX);
                for (f, v) in fields(v)? {
                    match (f, v) {
                        (1, F::B(s)) => name = text(s),
                        (2, F::B(t)) => {
                            for (f, v) in fields(t)? {
                                let (1, F::B(t)) = (f, v) else { continue };
                                for (f, v) in fields(t)? {
                                    match (f, v) {
                                        (1, F::V(e)) => et = e,
                                        (2, F::B(s)) => rank = fields(s)?.iter().filter(|x| x.0 == 1).count(),
                                        _ => {}
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                if f == 11 { g.ins.push((name, et, rank)) } else { g.outs.push(name) }
            }
            _ => {}
        }
    }
    Some(g)
}

type Names = Vec<BTreeMap<String, Set>>;
fn get(n: &Names, k: &str) -> Set {
    n.iter().rev().find_map(|s| s.get(k)).cloned().unwrap_or_default()
}
struct Walk<'a> {
    f: Flow,
    /// What a tensor is known as, or None for one to leave out.
    mark: &'a dyn Fn(&onnx::Found) -> Option<String>,
    /// Count conditions and trip counts as flowing into results.
    implicit: bool,
}
impl Walk<'_> {
    fn tensor(&self, t: &onnx::Found) -> Set {
        (self.mark)(t).into_iter().collect()
    }
    /// Values of the outputs of `g`, its inputs being bound to `args`.
    fn graph(&mut self, g: &G, args: &[Set], names: &mut Names) -> Vec<Set> {
        names.push(BTreeMap::new());
        for t in &g.inits {
            let s = self.tensor(t);
            names.last_mut().unwrap().insert(t.name.clone(), s);
        }
        for (i, (n, ..)) in g.ins.iter().enumerate() {
            if let Some(a) = args.get(i) {
                names.last_mut().unwrap().insert(n.clone(), a.clone());
            }
        }
        for n in &g.nodes {
            let vals: Vec<Set> = n.ins.iter().map(|i| if i.is_empty() { Set::new() } else { get(names, i) }).collect();
            let mut outs: Vec<Set> = match n.op.as_str() {
                "Constant" => vec![
                    n.tensor
                        .as_ref()
                        .map(|t| {
                            let name = n.outs.first().cloned().unwrap_or_default();
                            self.tensor(&onnx::Found { name, ..t.clone() })
                        })
                        .unwrap_or_default(),
                ],
                "If" => {
                    let mut res: Vec<Set> = vec![];
                    for k in ["then_branch", "else_branch"] {
                        let Some(b) = n.graphs.get(k) else { continue };
                        let r = self.graph(b, &[], names);
                        res.resize(res.len().max(r.len()), Set::new());
                        for (a, b) in res.iter_mut().zip(r) {
                            a.extend(b);
                        }
                    }
                    if self.implicit {
                        res.iter_mut().for_each(|r| r.extend(vals[0].iter().cloned()));
                    }
                    res
                }
                "Loop" | "Scan" => {
                    let Some(b) = n.graphs.get("body") else { continue };
                    let scan = n.op == "Scan";
                    let first = if scan { 0 } else { 2 };
                    let ns = if scan { n.n_scan } else { 0 };
                    let carried = vals.len().saturating_sub(first + ns);
                    let mut state: Vec<Set> = vals[first.min(vals.len())..(first + carried).min(vals.len())].to_vec();
                    let ctl: Set = if scan { Set::new() } else { vals.iter().take(2).flatten().cloned().collect() };
                    let mut cond = vals.get(1).filter(|_| !scan).cloned().unwrap_or_default();
                    let mut tail: Vec<Set> = vec![];
                    loop {
                        let mut args = vec![];
                        if !scan {
                            args.push(if self.implicit { ctl.clone() } else { Set::new() });
                            args.push(cond.clone());
                        }
                        args.extend(state.iter().cloned());
                        args.extend(vals.iter().skip(first + carried).cloned());
                        let r = self.graph(b, &args, names);
                        let before = (state.clone(), tail.clone(), cond.clone());
                        let r = if scan {
                            &r[..]
                        } else {
                            cond.extend(r.first().into_iter().flatten().cloned());
                            &r[1.min(r.len())..]
                        };
                        for (s, o) in state.iter_mut().zip(r) {
                            s.extend(o.iter().cloned());
                        }
                        let rest = &r[carried.min(r.len())..];
                        tail.resize(tail.len().max(rest.len()), Set::new());
                        for (s, o) in tail.iter_mut().zip(rest) {
                            s.extend(o.iter().cloned());
                        }
                        if before == (state.clone(), tail.clone(), cond.clone()) {
                            break;
                        }
                    }
                    let mut res: Vec<Set> = state.into_iter().chain(tail).collect();
                    if self.implicit {
                        res.iter_mut().for_each(|r| r.extend(ctl.iter().chain(&cond).cloned()));
                    }
                    res
                }
                _ => {
                    let parts: Vec<&Set> = vals.iter().collect();
                    let mut s = self.f.mix(&parts);
                    for g in n.graphs.values() {
                        s.extend(self.graph(g, &[], names).into_iter().flatten());
                    }
                    vec![s; n.outs.len()]
                }
            };
            outs.resize(n.outs.len(), Set::new());
            for (o, v) in n.outs.iter().zip(outs) {
                if !o.is_empty() {
                    names.last_mut().unwrap().insert(o.clone(), v);
                }
            }
        }
        let r = g.outs.iter().map(|o| get(names, o)).collect();
        names.pop();
        r
    }
}

/// Flow in a model. Inputs are marked "@position"; those that are not float
/// tensors, or whose position is in `quiet`, get no mark.
pub fn of_model(b: &[u8], ext: &Ext, implicit: bool, mark: &dyn Fn(&onnx::Found) -> Option<String>) -> Option<Flow> {
    let mut g = None;
    for (f, v) in fields(b)? {
        if let (7, F::B(v)) = (f, v) {
            g = Some(graph(v, ext)?);
        }
    }
    let mut g = g?;
    let inits: BTreeSet<String> = g.inits.iter().map(|t| t.name.clone()).collect();
    g.ins.retain(|i| !inits.contains(&i.0));
    let mut w = Walk { f: Flow::default(), mark, implicit };
    let args: Vec<Set> = g
        .ins
        .iter()
        .enumerate()
        .map(|(i, (_, et, rank))| if *et == onnx::F32 as u64 && *rank > 0 { [format!("@{i}")].into() } else { Set::new() })
        .collect();
    w.f.ins = args.iter().map(|s| s.iter().next().cloned().unwrap_or_default()).collect();
    let outs = w.graph(&g, &args, &mut vec![]);
    w.f.outs = outs;
    Some(w.f)
}

// ---- generated source ---------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum V {
    One(Set),
    Tup(Vec<V>),
}
impl V {
    fn flat(&self) -> Set {
        match self {
            V::One(s) => s.clone(),
            V::Tup(v) => v.iter().flat_map(|x| x.flat()).collect(),
        }
    }
    fn leaves(self, to: &mut Vec<Set>) {
        match self {
            V::One(s) => to.push(s),
            V::Tup(v) => v.into_iter().for_each(|x| x.leaves(to)),
        }
    }
    fn join(self, o: V) -> V {
        match (self, o) {
            (V::Tup(a), V::Tup(b)) if a.len() == b.len() => V::Tup(a.into_iter().zip(b).map(|(a, b)| a.join(b)).collect()),
            (a, b) => V::One(a.flat().into_iter().chain(b.flat()).collect()),
        }
    }
    fn none() -> V {
        V::One(Set::new())
    }
}

type Vars = Vec<BTreeMap<String, V>>;
struct Code<'a> {
    f: Flow,
    vars: Vars,
    mark: &'a dyn Fn(&str) -> Option<String>,
}
fn join_vars(a: Vars, b: Vars) -> Vars {
    a.into_iter()
        .zip(b)
        .map(|(mut x, y)| {
            for (k, v) in y {
                let j = match x.remove(&k) {
                    Some(o) => o.join(v),
                    None => v,
                };
                x.insert(k, j);
            }
            x
        })
        .collect()
}
impl Code<'_> {
    fn bind(&mut self, p: &syn::Pat, v: V) {
        match p {
            syn::Pat::Ident(i) => {
                self.vars.last_mut().unwrap().insert(i.ident.to_string(), v);
            }
            syn::Pat::Type(t) => self.bind(&t.pat, v),
            syn::Pat::Reference(t) => self.bind(&t.pat, v),
            syn::Pat::Paren(t) => self.bind(&t.pat, v),
            syn::Pat::Tuple(t) => self.each(t.elems.iter(), v),
            syn::Pat::Slice(t) => self.each(t.elems.iter(), v),
            syn::Pat::TupleStruct(t) => self.each(t.elems.iter(), v),
            syn::Pat::Struct(t) => {
                for f in &t.fields {
                    self.bind(&f.pat, V::One(v.flat()));
                }
            }
            _ => {}
        }
    }
    fn each<'p>(&mut self, ps: impl ExactSizeIterator<Item = &'p syn::Pat>, v: V) {
        match v {
            V::Tup(t) if t.len() == ps.len() => ps.zip(t).for_each(|(p, v)| self.bind(p, v)),
            v => ps.for_each(|p| self.bind(p, V::One(v.flat()))),
        }
    }
    fn var(&self, n: &str) -> Option<V> {
        self.vars.iter().rev().find_map(|s| s.get(n)).cloned()
    }
    fn set(&mut self, e: &syn::Expr, v: V, weak: bool) {
        match e {
            syn::Expr::Path(p) => {
                let n = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if let Some(s) = self.vars.iter_mut().rev().find(|s| s.contains_key(&n)) {
                    let old = s.remove(&n).unwrap();
                    s.insert(n, if weak { V::One(old.flat()).join(v) } else { v });
                }
            }
            syn::Expr::Tuple(t) => match v {
                V::Tup(x) if x.len() == t.elems.len() => t.elems.iter().zip(x).for_each(|(e, v)| self.set(e, v, weak)),
                v => t.elems.iter().for_each(|e| self.set(e, v.clone(), weak)),
            },
            syn::Expr::Index(i) => self.set(&i.expr, v, true),
            syn::Expr::Field(i) => self.set(&i.base, v, true),
            syn::Expr::Unary(u) => self.set(&u.expr, v, weak),
            syn::Expr::Paren(u) => self.set(&u.expr, v, weak),
            _ => {}
        }
    }
    fn block(&mut self, b: &syn::Block) -> V {
        self.vars.push(BTreeMap::new());
        let mut last = V::none();
        for s in &b.stmts {
            last = V::none();
            match s {
                syn::Stmt::Local(l) => {
                    let v = match &l.init {
                        Some(i) => {
                            if let Some((_, d)) = &i.diverge {
                                self.eval(d);
                            }
                            self.eval(&i.expr)
                        }
                        None => V::none(),
                    };
                    self.bind(&l.pat, v);
                }
                syn::Stmt::Expr(e, semi) => {
                    let v = self.eval(e);
                    if semi.is_none() {
                        last = v;
                    }
                }
                syn::Stmt::Macro(m) => {
                    let v = self.tokens(m.mac.tokens.clone());
                    if m.semi_token.is_none() {
                        last = V::One(v);
                    }
                }
                _ => {}
            }
        }
        self.vars.pop();
        last
    }
    /// Everything named in a token stream.
    fn tokens(&mut self, t: proc_macro2::TokenStream) -> Set {
        use proc_macro2::TokenTree as T;
        let v: Vec<T> = t.into_iter().collect();
        let mut parts: Vec<Set> = vec![];
        for (i, x) in v.iter().enumerate() {
            match x {
                T::Group(g) => parts.push(self.tokens(g.stream())),
                T::Ident(n) => {
                    let n = n.to_string();
                    let dot = i >= 1 && matches!(&v[i - 1], T::Punct(p) if p.as_char() == '.');
                    if dot {
                        if i >= 2 && matches!(&v[i - 2], T::Ident(s) if *s == "self") {
                            parts.push((self.mark)(&n).into_iter().collect());
                        }
                    } else if let Some(v) = self.var(&n) {
                        parts.push(v.flat());
                    }
                }
                _ => {}
            }
        }
        let r: Vec<&Set> = parts.iter().collect();
        self.f.mix(&r)
    }
    fn op<'e>(&mut self, es: impl IntoIterator<Item = &'e syn::Expr>) -> V {
        let es: Vec<&syn::Expr> = es.into_iter().collect();
        let mut parts: Vec<Set> = vec![];
        for e in &es {
            if !matches!(e, syn::Expr::Closure(_)) {
                self.eval(e).leaves(&mut parts);
            }
        }
        // A closure sees what it is given.
        let all: Set = parts.iter().flatten().cloned().collect();
        for e in &es {
            if let syn::Expr::Closure(c) = e {
                self.vars.push(BTreeMap::new());
                for p in &c.inputs {
                    self.bind(p, V::One(all.clone()));
                }
                let v = self.eval(&c.body).flat();
                self.vars.pop();
                parts.push(v);
            }
        }
        let r: Vec<&Set> = parts.iter().collect();
        V::One(self.f.mix(&r))
    }
    fn fix(&mut self, step: &mut dyn FnMut(&mut Self)) {
        for _ in 0..1000 {
            let before = self.vars.clone();
            step(self);
            let after = join_vars(before.clone(), std::mem::take(&mut self.vars));
            let same = after == before;
            self.vars = after;
            if same {
                return;
            }
        }
        self.f.odd = Some("loop does not settle".into());
    }
    fn eval(&mut self, e: &syn::Expr) -> V {
        use syn::Expr as E;
        match e {
            E::Path(p) => match p.path.get_ident() {
                Some(i) => self.var(&i.to_string()).unwrap_or_else(V::none),
                None => V::none(),
            },
            E::Lit(_) | E::Continue(_) | E::Infer(_) => V::none(),
            E::Field(f) => {
                if matches!(&*f.base, E::Path(p) if p.path.is_ident("self")) {
                    let n = match &f.member {
                        syn::Member::Named(n) => n.to_string(),
                        _ => String::new(),
                    };
                    return V::One((self.mark)(&n).into_iter().collect());
                }
                match (self.eval(&f.base), &f.member) {
                    (V::Tup(t), syn::Member::Unnamed(i)) if (i.index as usize) < t.len() => t[i.index as usize].clone(),
                    (v, _) => V::One(v.flat()),
                }
            }
            E::Paren(p) => self.eval(&p.expr),
            E::Group(p) => self.eval(&p.expr),
            E::Reference(p) => self.eval(&p.expr),
            E::Unary(p) => self.eval(&p.expr),
            E::Cast(p) => self.eval(&p.expr),
            E::Try(p) => self.eval(&p.expr),
            E::Tuple(t) => V::Tup(t.elems.iter().map(|e| self.eval(e)).collect()),
            // What is not an operation yet keeps its parts apart.
            E::Array(a) => V::Tup(a.elems.iter().map(|e| self.eval(e)).collect()),
            E::Block(b) => self.block(&b.block),
            E::Unsafe(b) => self.block(&b.block),
            E::Binary(b) => {
                use syn::BinOp::*;
                let v = self.op([&*b.left, &*b.right]);
                if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
                    self.set(&b.left, v, true);
                    return V::none();
                }
                v
            }
            E::Assign(a) => {
                let v = self.eval(&a.right);
                self.set(&a.left, v, false);
                V::none()
            }
            E::Call(c) => {
                let v = self.op(c.args.iter());
                // Constructors of wrappers keep what they wrap apart.
                if c.args.len() == 1 && matches!(&*c.func, E::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Some" || s.ident == "Ok")) {
                    return self.eval(&c.args[0]);
                }
                v
            }
            E::MethodCall(m) => {
                // Moving parts around is no operation on them.
                if m.args.is_empty() && matches!(m.method.to_string().as_str(), "clone" | "to_vec" | "into" | "to_owned" | "into_iter" | "iter") {
                    return self.eval(&m.receiver);
                }
                let parts: Vec<&E> = std::iter::once(&*m.receiver).chain(m.args.iter()).collect();
                let v = self.op(parts);
                if !m.args.is_empty() && matches!(m.method.to_string().as_str(), "push" | "insert" | "extend" | "append" | "push_back") {
                    self.set(&m.receiver, v.clone(), true);
                }
                v
            }
            E::Index(i) => {
                let (a, b) = (self.eval(&i.expr).flat(), self.eval(&i.index).flat());
                V::One(self.f.mix(&[&a, &b]))
            }
            E::Range(r) => {
                let a = r.start.as_ref().map(|e| self.eval(e).flat()).unwrap_or_default();
                let b = r.end.as_ref().map(|e| self.eval(e).flat()).unwrap_or_default();
                V::One(a.into_iter().chain(b).collect())
            }
            E::Repeat(r) => V::One(self.eval(&r.expr).flat()),
            E::Struct(s) => {
                let es: Vec<&E> = s.fields.iter().map(|f| &f.expr).collect();
                self.op(es)
            }
            E::Return(r) => {
                if let Some(x) = &r.expr {
                    self.eval(x);
                }
                V::none()
            }
            E::Break(r) => r.expr.as_ref().map_or_else(V::none, |x| self.eval(x)),
            E::Let(l) => {
                let v = self.eval(&l.expr);
                self.bind(&l.pat, v);
                V::none()
            }
            E::If(i) => {
                self.vars.push(BTreeMap::new());
                self.eval(&i.cond);
                let start = self.vars.clone();
                let a = self.block(&i.then_branch);
                let one = std::mem::replace(&mut self.vars, start);
                let b = i.else_branch.as_ref().map(|(_, e)| self.eval(e));
                self.vars = join_vars(one, std::mem::take(&mut self.vars));
                self.vars.pop();
                match b {
                    Some(b) => a.join(b),
                    None => a,
                }
            }
            E::Match(m) => {
                let on = self.eval(&m.expr);
                let start = self.vars.clone();
                let mut end: Option<Vars> = None;
                let mut res: Option<V> = None;
                for a in &m.arms {
                    self.vars = start.clone();
                    self.vars.push(BTreeMap::new());
                    self.bind(&a.pat, on.clone());
                    let v = self.eval(&a.body);
                    self.vars.pop();
                    let now = std::mem::take(&mut self.vars);
                    end = Some(match end {
                        Some(e) => join_vars(e, now),
                        None => now,
                    });
                    res = Some(match res {
                        Some(r) => r.join(v),
                        None => v,
                    });
                }
                self.vars = end.unwrap_or(start);
                res.unwrap_or_else(V::none)
            }
            E::ForLoop(l) => {
                let over = V::One(self.eval(&l.expr).flat());
                self.fix(&mut |s| {
                    s.vars.push(BTreeMap::new());
                    s.bind(&l.pat, over.clone());
                    s.block(&l.body);
                    s.vars.pop();
                });
                V::none()
            }
            E::While(l) => {
                self.fix(&mut |s| {
                    s.vars.push(BTreeMap::new());
                    s.eval(&l.cond);
                    s.block(&l.body);
                    s.vars.pop();
                });
                V::none()
            }
            E::Loop(l) => {
                self.fix(&mut |s| {
                    s.block(&l.body);
                });
                V::none()
            }
            E::Closure(c) => {
                self.vars.push(BTreeMap::new());
                for p in &c.inputs {
                    self.bind(p, V::none());
                }
                let v = self.eval(&c.body);
                self.vars.pop();
                v
            }
            E::Macro(m) => V::One(self.tokens(m.mac.tokens.clone())),
            _ => {
                self.f.odd = Some("expression of another kind".into());
                V::none()
            }
        }
    }
}

/// Flow in the forward pass of a generated module. `mark` names fields;
/// `ins` are the marks of the parameters.
pub fn of_source(text: &str, ins: &[String], mark: &dyn Fn(&str) -> Option<String>) -> Option<Flow> {
    let file = syn::parse_file(text).ok()?;
    for it in &file.items {
        let syn::Item::Impl(im) = it else { continue };
        for x in &im.items {
            let syn::ImplItem::Fn(f) = x else { continue };
            if f.sig.ident != "forward" {
                continue;
            }
            let mut c = Code { f: Flow::default(), vars: vec![BTreeMap::new()], mark };
            let params: Vec<&syn::Pat> = f.sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(&*t.pat) } else { None }).collect();
            if params.len() != ins.len() {
                c.f.odd = Some(format!("{} parameters for {} inputs", params.len(), ins.len()));
                return Some(c.f);
            }
            for (p, m) in params.iter().zip(ins) {
                c.bind(p, V::One(if m.is_empty() { Set::new() } else { [m.clone()].into() }));
            }
            let v = c.block(&f.block);
            c.f.outs = match v {
                V::Tup(v) => v.iter().map(|x| x.flat()).collect(),
                v => vec![v.flat()],
            };
            return Some(c.f);
        }
    }
    None
}
