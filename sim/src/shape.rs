//! Second look at a generated source file: what `new` declares, and how
//! `forward` uses its values.
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::{Expr, Pat, Stmt};

#[derive(Default, Debug, Clone)]
pub struct Decl {
    pub kind: String,
    pub args: Vec<Vec<usize>>,
    pub with: BTreeMap<String, Vec<usize>>,
    /// Element kind of a bare parameter: "", "Int" or "Bool".
    pub elem: String,
}

fn ints(e: &Expr) -> Option<Vec<usize>> {
    match e {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => Some(vec![i.base10_parse().ok()?]),
            syn::Lit::Bool(b) => Some(vec![b.value as usize]),
            _ => None,
        },
        Expr::Array(a) => {
            let mut v = vec![];
            for x in &a.elems {
                v.extend(ints(x)?);
            }
            Some(v)
        }
        Expr::MethodCall(m) if m.method == "into" => ints(&m.receiver),
        Expr::Path(p) => {
            let s = p.path.segments.last()?.ident.to_string();
            match s.as_str() {
                "Col" => Some(vec![1]),
                "Row" => Some(vec![0]),
                _ => None,
            }
        }
        Expr::Paren(p) => ints(&p.expr),
        Expr::Group(p) => ints(&p.expr),
        _ => None,
    }
}

fn decl(e: &Expr) -> Option<Decl> {
    match e {
        Expr::MethodCall(m) => {
            let mut d = decl(&m.receiver)?;
            let n = m.method.to_string();
            if let Some(w) = n.strip_prefix("with_") {
                let v = m.args.first().and_then(ints).unwrap_or_default();
                d.with.insert(w.into(), v);
            }
            Some(d)
        }
        Expr::Call(c) => {
            let Expr::Path(p) = &*c.func else { return None };
            let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = seg.len();
            if n < 2 {
                return None;
            }
            Some(Decl { kind: format!("{}::{}", seg[n - 2], seg[n - 1]), args: c.args.iter().map(|a| ints(a).unwrap_or_default()).collect(), ..Default::default() })
        }
        _ => None,
    }
}

/// The parameters a declaration has: suffix -> shape.
pub fn params(d: &Decl) -> Option<BTreeMap<String, Vec<usize>>> {
    let mut m = BTreeMap::new();
    let a = |i: usize| d.args.get(i).cloned().unwrap_or_default();
    let a0 = |i: usize| d.args.get(i).and_then(|v| v.first().copied()).unwrap_or(0);
    let bias = d.with.get("bias").is_none_or(|b| b != &vec![0]);
    let groups = |k: &str| d.with.get(k).and_then(|v| v.first().copied()).unwrap_or(1).max(1);
    let cfg = d.kind.strip_suffix("Config::new").unwrap_or("");
    match cfg {
        "Linear" => {
            let (i, o) = (a0(0), a0(1));
            let col = d.with.get("layout").is_some_and(|v| v == &vec![1]);
            m.insert("weight".into(), if col { vec![o, i] } else { vec![i, o] });
            if bias {
                m.insert("bias".into(), vec![o]);
            }
        }
        "Conv1d" => {
            let g = groups("groups");
            m.insert("weight".into(), vec![a0(1), a0(0) / g, a0(2)]);
            if bias {
                m.insert("bias".into(), vec![a0(1)]);
            }
        }
        "Conv2d" | "Conv3d" | "DeformConv2d" => {
            let g = groups(if cfg == "DeformConv2d" { "weight_groups" } else { "groups" });
            let c = a(0);
            let mut w = vec![*c.get(1)?, c[0] / g];
            w.extend(a(1));
            m.insert("weight".into(), w);
            if bias {
                m.insert("bias".into(), vec![c[1]]);
            }
        }
        "ConvTranspose1d" | "ConvTranspose2d" | "ConvTranspose3d" => {
            let g = groups("groups");
            let c = a(0);
            let mut w = vec![*c.first()?, *c.get(1)? / g];
            w.extend(a(1));
            m.insert("weight".into(), w);
            if bias {
                m.insert("bias".into(), vec![c[1]]);
            }
        }
        "BatchNorm" => {
            for k in ["gamma", "beta", "running_mean", "running_var"] {
                m.insert(k.into(), vec![a0(0)]);
            }
        }
        "LayerNorm" => {
            m.insert("gamma".into(), vec![a0(0)]);
            if bias {
                m.insert("beta".into(), vec![a0(0)]);
            }
        }
        "GroupNorm" => {
            m.insert("gamma".into(), vec![a0(1)]);
            m.insert("beta".into(), vec![a0(1)]);
        }
        "InstanceNorm" => {
            m.insert("gamma".into(), vec![a0(0)]);
            m.insert("beta".into(), vec![a0(0)]);
        }
        "PRelu" => {
            m.insert("alpha".into(), vec![groups("num_parameters")]);
        }
        "Lstm" | "BiLstm" | "Gru" | "BiGru" | "Rnn" | "BiRnn" => {
            let gates: &[&str] = match cfg.trim_start_matches("Bi") {
                "Lstm" => &["input_gate", "forget_gate", "output_gate", "cell_gate"],
                "Gru" => &["update_gate", "reset_gate", "new_gate"],
                _ => &["gate"],
            };
            let dirs: &[&str] = if cfg.starts_with("Bi") { &["forward.", "reverse."] } else { &[""] };
            let (i, h, b) = (a0(0), a0(1), a0(2) == 1);
            for dir in dirs {
                for g in gates {
                    m.insert(format!("{dir}{g}.input_transform.weight"), vec![i, h]);
                    m.insert(format!("{dir}{g}.hidden_transform.weight"), vec![h, h]);
                    if b {
                        m.insert(format!("{dir}{g}.input_transform.bias"), vec![h]);
                        m.insert(format!("{dir}{g}.hidden_transform.bias"), vec![h]);
                    }
                }
            }
        }
        "Dropout" | "AvgPool1d" | "AvgPool2d" | "MaxPool1d" | "MaxPool2d" | "AdaptiveAvgPool1d" | "AdaptiveAvgPool2d" | "Interpolate2d"
        | "Interpolate1d" => {}
        _ => match d.kind.as_str() {
            "Param::uninitialized" => {
                m.insert(String::new(), a(4));
            }
            "AvgPool1d::new" | "AdaptiveAvgPool1d::new" => {}
            _ => return None,
        },
    }
    Some(m)
}

#[derive(Default, Debug)]
pub struct Shape {
    pub decls: BTreeMap<String, Decl>,
    /// Fields initialised more than once in `new`.
    pub twice: Vec<String>,
    /// Names bound twice in one block of `forward`.
    pub rebound: Vec<String>,
    /// Values used after having been given away.
    pub moved: Vec<String>,
    pub checked_moves: usize,
    pub outputs: usize,
}

fn pat_ident(p: &Pat) -> Option<(String, Option<String>)> {
    match p {
        Pat::Ident(i) => Some((i.ident.to_string(), None)),
        Pat::Type(t) => {
            let (n, _) = pat_ident(&t.pat)?;
            let mut last = String::new();
            struct T<'a>(&'a mut String);
            impl<'ast> Visit<'ast> for T<'_> {
                fn visit_ident(&mut self, i: &'ast syn::Ident) {
                    self.0.push_str(&i.to_string());
                    self.0.push(' ');
                }
            }
            T(&mut last).visit_type(&t.ty);
            Some((n, Some(last)))
        }
        _ => None,
    }
}

const BORROW: &[&str] = &[
    "clone", "dims", "shape", "dtype", "device", "to_data", "to_string", "iter", "len", "is_empty", "as_slice", "as_ref", "val", "as_mut", "iter_mut",
    "get", "first", "last", "contains", "push", "extend", "to_vec", "num_elements", "elem_type", "zeros_like",
    "ones_like", "full_like", "random_like", "reverse", "sort", "dedup", "retain", "swap", "truncate", "resize", "pop", "insert", "remove",
];

struct Moves<'a> {
    /// Tensor-like names in scope -> moved?
    scopes: Vec<BTreeMap<String, bool>>,
    tensors: &'a BTreeSet<String>,
    out: &'a mut Shape,
    loops: usize,
}
impl Moves<'_> {
    /// `plain`: certainly no tensor, though a value of the model has that name.
    fn bind(&mut self, n: &str, tensor: bool, plain: bool) {
        let t = tensor || !plain && self.tensors.contains(n);
        if t {
            self.scopes.last_mut().unwrap().insert(n.into(), false);
        } else {
            // A binding of another kind hides an outer one.
            self.scopes.last_mut().unwrap().remove(n);
            if let Some(s) = self.scopes.iter().rposition(|s| s.contains_key(n)) {
                if s + 1 < self.scopes.len() {
                    // Not tracked further: mark as a copy by leaving a tombstone.
                    self.scopes.last_mut().unwrap().insert(format!("!{n}"), false);
                }
            }
        }
    }
    fn touch(&mut self, n: &str, moves: bool) {
        for s in self.scopes.iter_mut().rev() {
            if s.contains_key(&format!("!{n}")) {
                return;
            }
            if let Some(m) = s.get_mut(n) {
                self.out.checked_moves += 1;
                if *m && !self.out.moved.contains(&n.to_string()) {
                    self.out.moved.push(n.into());
                }
                if moves && self.loops == 0 {
                    *m = true;
                }
                return;
            }
        }
    }
    fn scoped(&mut self, f: impl FnOnce(&mut Self)) {
        self.scopes.push(BTreeMap::new());
        f(self);
        self.scopes.pop();
    }
    /// Alternatives: what any of them gives away is gone afterwards.
    fn alternatives(&mut self, fs: Vec<Box<dyn FnOnce(&mut Self) + '_>>) {
        let start = self.scopes.clone();
        let mut after = start.clone();
        for f in fs {
            self.scopes = start.clone();
            f(self);
            for (a, b) in after.iter_mut().zip(&self.scopes) {
                for (k, v) in b {
                    if *v {
                        a.insert(k.clone(), true);
                    }
                }
            }
        }
        self.scopes = after;
    }
}
impl<'ast> Visit<'ast> for Moves<'_> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        self.scoped(|s| visit::visit_block(s, b));
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
        }
        let plain = matches!(&l.pat, Pat::Slice(_))
            || match l.init.as_ref().map(|i| &*i.expr) {
                Some(Expr::MethodCall(m)) => matches!(m.method.to_string().as_str(), "dims" | "shape" | "len" | "device" | "dtype"),
                Some(Expr::Lit(_) | Expr::Array(_) | Expr::Range(_) | Expr::Cast(_) | Expr::Repeat(_)) => true,
                _ => false,
            };
        if let Some((n, t)) = pat_ident(&l.pat) {
            self.bind(&n, t.is_some_and(|t| t.starts_with("Tensor ")), plain);
        } else {
            struct P(Vec<String>);
            impl<'ast> Visit<'ast> for P {
                fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
                    self.0.push(i.ident.to_string());
                }
            }
            let mut p = P(vec![]);
            p.visit_pat(&l.pat);
            for n in p.0 {
                self.bind(&n, false, plain);
            }
        }
    }
    fn visit_expr_if(&mut self, i: &'ast syn::ExprIf) {
        self.visit_expr(&i.cond);
        let mut v: Vec<Box<dyn FnOnce(&mut Self)>> = vec![Box::new(|s: &mut Self| s.visit_block(&i.then_branch))];
        if let Some((_, e)) = &i.else_branch {
            v.push(Box::new(|s: &mut Self| s.visit_expr(e)));
        }
        self.alternatives(v);
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        self.visit_expr(&m.expr);
        let v: Vec<Box<dyn FnOnce(&mut Self)>> = m.arms.iter().map(|a| Box::new(|s: &mut Self| s.visit_expr(&a.body)) as Box<dyn FnOnce(&mut Self)>).collect();
        self.alternatives(v);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        self.visit_expr(&f.expr);
        self.loops += 1;
        self.visit_block(&f.body);
        self.loops -= 1;
    }
    fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) {
        self.loops += 1;
        self.visit_expr(&f.cond);
        self.visit_block(&f.body);
        self.loops -= 1;
    }
    fn visit_expr_loop(&mut self, f: &'ast syn::ExprLoop) {
        self.loops += 1;
        self.visit_block(&f.body);
        self.loops -= 1;
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        // Captures by reference unless the body gives the value away.
        self.loops += 1;
        self.scoped(|s| s.visit_expr(&c.body));
        self.loops -= 1;
    }
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        if let Expr::Path(p) = &*r.expr {
            if let Some(i) = p.path.get_ident() {
                return self.touch(&i.to_string(), false);
            }
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_index(&mut self, r: &'ast syn::ExprIndex) {
        if let Expr::Path(p) = &*r.expr {
            if let Some(i) = p.path.get_ident() {
                self.touch(&i.to_string(), false);
                return self.visit_expr(&r.index);
            }
        }
        visit::visit_expr_index(self, r);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        match &*m.receiver {
            Expr::Path(p) if p.path.get_ident().is_some() => {
                let n = p.path.get_ident().unwrap().to_string();
                let borrow = BORROW.contains(&m.method.to_string().as_str());
                self.touch(&n, !borrow);
            }
            r => self.visit_expr(r),
        }
        for a in &m.args {
            self.visit_expr(a);
        }
    }
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        self.visit_expr(&a.right);
        if let Expr::Path(p) = &*a.left {
            if let Some(i) = p.path.get_ident() {
                let n = i.to_string();
                for s in self.scopes.iter_mut().rev() {
                    if let Some(m) = s.get_mut(&n) {
                        *m = false;
                        return;
                    }
                }
            }
        }
    }
    fn visit_expr_field(&mut self, e: &'ast syn::ExprField) {
        if let Expr::Path(_) = &*e.base {
            return;
        }
        visit::visit_expr_field(self, e);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.touch(&i.to_string(), true);
        }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if !matches!(&*c.func, Expr::Path(_)) {
            self.visit_expr(&c.func);
        }
        for a in &c.args {
            self.visit_expr(a);
        }
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

fn mentions(e: &Expr, n: &str) -> bool {
    struct M<'a>(&'a str, bool);
    impl<'ast> Visit<'ast> for M<'_> {
        fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
            if p.path.get_ident().is_some_and(|i| i == self.0) {
                self.1 = true;
            }
        }
    }
    let mut m = M(n, false);
    m.visit_expr(e);
    m.1
}

pub fn look(text: &str) -> Result<Shape, String> {
    let file = syn::parse_file(text).map_err(|e| e.to_string())?;
    let mut s = Shape::default();
    for it in &file.items {
        let syn::Item::Impl(im) = it else { continue };
        for x in &im.items {
            let syn::ImplItem::Fn(f) = x else { continue };
            match f.sig.ident.to_string().as_str() {
                "new" => {
                    for st in &f.block.stmts {
                        if let Stmt::Local(l) = st {
                            if let (Some((n, ty)), Some(i)) = (pat_ident(&l.pat), &l.init) {
                                let mut d = decl(&i.expr).unwrap_or_default();
                                if let Some(t) = ty {
                                    d.elem = if t.contains("Int") { "Int" } else if t.contains("Bool") { "Bool" } else { "" }.into();
                                }
                                if s.decls.insert(n.clone(), d).is_some() {
                                    s.twice.push(n);
                                }
                            }
                        }
                    }
                }
                "forward" => {
                    // Names of values that are not plain copies.
                    struct Clones<'a>(&'a mut BTreeSet<String>);
                    impl<'ast> Visit<'ast> for Clones<'_> {
                        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                            if m.method == "clone" {
                                if let Expr::Path(p) = &*m.receiver {
                                    if let Some(i) = p.path.get_ident() {
                                        self.0.insert(i.to_string());
                                    }
                                }
                            }
                            visit::visit_expr_method_call(self, m);
                        }
                    }
                    let mut t = BTreeSet::new();
                    Clones(&mut t).visit_block(&f.block);
                    let mut top = BTreeMap::new();
                    let mut seen = BTreeSet::new();
                    for a in &f.sig.inputs {
                        if let syn::FnArg::Typed(p) = a {
                            if let Pat::Ident(i) = &*p.pat {
                                let n = i.ident.to_string();
                                if !seen.insert(n.clone()) {
                                    s.rebound.push(n.clone());
                                }
                                let tensor = matches!(&*p.ty, syn::Type::Path(q) if q.path.segments.last().is_some_and(|x| x.ident == "Tensor"));
                                if tensor {
                                    top.insert(n, false);
                                } else {
                                    t.remove(&n);
                                }
                            }
                        }
                    }
                    let params_ = seen.clone();
                    for st in &f.block.stmts {
                        if let Stmt::Local(l) = st {
                            struct P<'a>(&'a mut BTreeSet<String>, &'a mut Vec<String>);
                            impl<'ast> Visit<'ast> for P<'_> {
                                fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
                                    let n = i.ident.to_string();
                                    if n != "_" && !self.0.insert(n.clone()) {
                                        self.1.push(n);
                                    }
                                }
                            }
                            let mut again = vec![];
                            P(&mut seen, &mut again).visit_pat(&l.pat);
                            // A value converted in place keeps its name; helper names may recur.
                            for n in again {
                                let value = params_.contains(&n) || n.rsplit_once("_out").is_some_and(|(_, d)| d.parse::<u32>().is_ok());
                                let itself = l.init.as_ref().is_some_and(|i| mentions(&i.expr, &n));
                                if value && !itself {
                                    s.rebound.push(n);
                                }
                            }
                        }
                    }
                    let mut m = Moves { scopes: vec![top], tensors: &t, out: &mut s, loops: 0 };
                    for st in &f.block.stmts {
                        m.visit_stmt(st);
                    }
                }
                _ => {}
            }
        }
    }
    Ok(s)
}
