//! Models and programs up to the names in them.
use crate::pb::{self, Field, Ty, Val};
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};

/// Call `f` on every place of a model that names a value.
pub fn each_name(m: &mut [Field], f: &mut dyn FnMut(&mut Vec<u8>)) {
    for x in m {
        let here = matches!(
            (x.of, x.n),
            // Value infos, node inputs and outputs, initializers.
            (Ty::Node, 1 | 2) | (Ty::Info, 1)
        );
        match &mut x.v {
            Val::Bytes(b) if here => f(b),
            // A tensor is named as a value only as an initializer.
            Val::Msg(Ty::Tensor, t) if x.of == Ty::Graph => {
                for y in t {
                    if let (8, Val::Bytes(b)) = (y.n, &mut y.v) {
                        f(b);
                    }
                }
            }
            Val::Msg(Ty::Tensor, _) => {}
            Val::Msg(_, k) => each_name(k, f),
            _ => {}
        }
    }
}
/// Call `f` on the name of every node, or where a node has none, add one.
pub fn each_label(m: &mut Vec<Field>, f: &mut dyn FnMut(Option<&str>) -> Option<String>) {
    for x in m {
        let Val::Msg(t, k) = &mut x.v else { continue };
        if *t == Ty::Node {
            let old = k.iter().find_map(|y| if let (3, Val::Bytes(b)) = (y.n, &y.v) { Some(String::from_utf8_lossy(b).into_owned()) } else { None });
            let new = f(old.as_deref());
            k.retain(|y| y.n != 3);
            if let Some(s) = new {
                k.push(Field { n: 3, of: Ty::Node, v: Val::Bytes(s.into_bytes()) });
            }
        }
        each_label(k, f);
    }
}
/// All value names in order of appearance.
pub fn names(b: &[u8]) -> Option<Vec<String>> {
    let mut m = pb::parse(b, Ty::Model, 0)?;
    let mut seen = BTreeSet::new();
    let mut v = vec![];
    each_name(&mut m, &mut |n| {
        let s = String::from_utf8_lossy(n).into_owned();
        if !s.is_empty() && seen.insert(s.clone()) {
            v.push(s);
        }
    });
    Some(v)
}
pub fn rename(b: &[u8], map: &BTreeMap<String, String>, label: &mut dyn FnMut(Option<&str>) -> Option<String>) -> Option<Vec<u8>> {
    let mut m = pb::parse(b, Ty::Model, 0)?;
    each_name(&mut m, &mut |n| {
        if let Some(t) = std::str::from_utf8(n).ok().and_then(|s| map.get(s)) {
            *n = t.clone().into_bytes();
        }
    });
    each_label(&mut m, label);
    Some(pb::enc(&m))
}

/// Every local variable replaced by the number of its definition.
struct Alpha {
    scopes: Vec<BTreeMap<String, String>>,
    ids: BTreeSet<String>,
    /// Everything a name has stood for.
    over: BTreeMap<String, BTreeSet<String>>,
    n: usize,
}
impl Alpha {
    fn get(&self, n: &str) -> Option<&String> {
        self.scopes.iter().rev().find_map(|s| s.get(n))
    }
    fn name(&mut self, n: &str, to: &str) {
        self.over.entry(n.to_string()).or_default().insert(to.to_string());
        self.scopes.last_mut().unwrap().insert(n.to_string(), to.to_string());
    }
    fn bind(&mut self, p: &mut syn::Pat) {
        struct P<'a>(&'a mut Alpha);
        impl VisitMut for P<'_> {
            fn visit_pat_ident_mut(&mut self, i: &mut syn::PatIdent) {
                let t = format!("B{}", self.0.n);
                self.0.n += 1;
                self.0.ids.insert(t.clone());
                self.0.name(&i.ident.to_string(), &t);
                i.ident = Ident::new(&t, Span::call_site());
            }
        }
        P(self).visit_pat_mut(p);
    }
    fn scoped(&mut self, f: impl FnOnce(&mut Self)) {
        self.scopes.push(BTreeMap::new());
        f(self);
        self.scopes.pop();
    }
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let mut out = vec![];
        let mut dots = 0;
        for x in t {
            let dot = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
            out.push(match x {
                TokenTree::Ident(i) if dots != 1 => match self.get(&i.to_string()) {
                    Some(b) => TokenTree::Ident(Ident::new(b, Span::call_site())),
                    None => TokenTree::Ident(i),
                },
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream()))),
                x => x,
            });
            dots = if dot { dots + 1 } else { 0 };
        }
        out.into_iter().collect()
    }
}
impl VisitMut for Alpha {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // A second name for a value is no definition; in which order
        // captured values get theirs depends on the names.
        self.scoped(|s| {
            let mut keep = vec![];
            for mut x in std::mem::take(&mut b.stmts) {
                if let syn::Stmt::Local(l) = &mut x {
                    if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &mut l.init) {
                        if i.mutability.is_none() && i.by_ref.is_none() && init.diverge.is_none() {
                            s.visit_expr_mut(&mut init.expr);
                            if let syn::Expr::Path(p) = &*init.expr {
                                if let Some(t) = p.path.get_ident().map(|i| i.to_string()).filter(|t| s.ids.contains(t)) {
                                    s.name(&i.ident.to_string(), &t);
                                    continue;
                                }
                            }
                            s.bind(&mut l.pat);
                            keep.push(x);
                            continue;
                        }
                    }
                }
                s.visit_stmt_mut(&mut x);
                keep.push(x);
            }
            b.stmts = keep;
        });
    }
    /// Copies are as good as originals.
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        while let syn::Expr::MethodCall(m) = e {
            if m.method != "clone" || !m.args.is_empty() {
                break;
            }
            *e = (*m.receiver).clone();
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if let Some(i) = &mut l.init {
            self.visit_expr_mut(&mut i.expr);
            if let Some((_, d)) = &mut i.diverge {
                self.visit_expr_mut(d);
            }
        }
        self.bind(&mut l.pat);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        self.scoped(|s| {
            for i in &mut c.inputs {
                s.bind(i);
            }
            s.visit_expr_mut(&mut c.body);
        });
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        self.scoped(|s| {
            s.bind(&mut f.pat);
            s.visit_block_mut(&mut f.body);
        });
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        self.scoped(|s| {
            s.bind(&mut a.pat);
            if let Some((_, g)) = &mut a.guard {
                s.visit_expr_mut(g);
            }
            s.visit_expr_mut(&mut a.body);
        });
    }
    fn visit_expr_let_mut(&mut self, l: &mut syn::ExprLet) {
        self.visit_expr_mut(&mut l.expr);
        self.bind(&mut l.pat);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() {
            if let Some(b) = p.path.get_ident().and_then(|i| self.get(&i.to_string())) {
                p.path = syn::Path::from(Ident::new(b, Span::call_site()));
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.tokens(std::mem::take(&mut m.tokens));
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
        self.scoped(|s| {
            for a in &mut f.sig.inputs {
                if let syn::FnArg::Typed(t) = a {
                    s.bind(&mut t.pat);
                }
            }
            s.visit_block_mut(&mut f.block);
        });
    }
}
/// The tokens of a program, local variables numbered by definition.
pub struct Canon {
    pub toks: Vec<String>,
    over: BTreeMap<String, BTreeSet<String>>,
}
impl Canon {
    /// The names that `p` and `q` share, at least for a time.
    pub fn shared(&self, p: &str, q: &str) -> Vec<&str> {
        let has = |n: &str, t: &str| n == t || self.over[n].contains(t);
        self.over.keys().map(|n| n.as_str()).filter(|n| p != q && has(n, p) && has(n, q)).collect()
    }
}
pub fn canon(text: &str) -> Result<Canon, String> {
    let mut f = syn::parse_file(text).map_err(|e| e.to_string())?;
    let mut a = Alpha { scopes: vec![BTreeMap::new()], ids: BTreeSet::new(), over: BTreeMap::new(), n: 0 };
    a.visit_file_mut(&mut f);
    fn flat(t: TokenStream, out: &mut Vec<String>) {
        for x in t {
            match x {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    out.push(a.into());
                    flat(g.stream(), out);
                    out.push(b.into());
                }
                x => out.push(x.to_string()),
            }
        }
    }
    let mut v = vec![];
    flat(f.to_token_stream(), &mut v);
    // How long a name is decides where the formatter breaks lines.
    let mut w: Vec<String> = vec![];
    for t in v {
        if matches!(t.as_str(), ")" | "]" | "}" | ">") && w.last().is_some_and(|l| l == ",") {
            w.pop();
        }
        w.push(t);
    }
    Ok(Canon { toks: w, over: a.over })
}
