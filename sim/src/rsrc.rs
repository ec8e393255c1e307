//! What the oracles need to know about a generated source file. Parsed with
//! syn in the controller, never inside a simulated process.
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};

#[derive(Default, Debug)]
pub struct Src {
    pub fields: Vec<String>,
    /// Fields given a value in the constructor's `Self { .. }`.
    pub built: Vec<String>,
    /// `self.X` in forward, in order of first appearance.
    pub used: Vec<String>,
    /// Identifiers read in forward/new without a binding in scope.
    pub unbound: BTreeSet<String>,
    pub has_forward: bool,
    /// Types of fields, as text.
    pub types: BTreeMap<String, String>,
    /// Parameter names of forward.
    pub params: Vec<String>,
}

struct Fwd<'a> {
    scopes: Vec<BTreeSet<String>>,
    s: &'a mut Src,
    in_forward: bool,
}
impl Fwd<'_> {
    fn bind(&mut self, n: String) {
        self.scopes.last_mut().unwrap().insert(n);
    }
    fn bound(&self, n: &str) -> bool {
        self.scopes.iter().any(|s| s.contains(n))
    }
    fn pat(&mut self, p: &syn::Pat) {
        struct P<'b>(&'b mut Vec<String>);
        impl<'ast> Visit<'ast> for P<'_> {
            fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
                self.0.push(i.ident.to_string());
                visit::visit_pat_ident(self, i);
            }
        }
        let mut v = vec![];
        P(&mut v).visit_pat(p);
        for n in v {
            self.bind(n);
        }
    }
    fn scoped(&mut self, f: impl FnOnce(&mut Self)) {
        self.scopes.push(BTreeSet::new());
        f(self);
        self.scopes.pop();
    }
}
impl<'ast> Visit<'ast> for Fwd<'_> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        self.scoped(|s| visit::visit_block(s, b));
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            if let Some((_, d)) = &i.diverge {
                self.visit_expr(d);
            }
        }
        self.pat(&l.pat);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.scoped(|s| {
            for i in &c.inputs {
                s.pat(i);
            }
            s.visit_expr(&c.body);
        });
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        self.visit_expr(&f.expr);
        self.scoped(|s| {
            s.pat(&f.pat);
            s.visit_block(&f.body);
        });
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        self.scoped(|s| {
            s.pat(&a.pat);
            if let Some((_, g)) = &a.guard {
                s.visit_expr(g);
            }
            s.visit_expr(&a.body);
        });
    }
    fn visit_expr_let(&mut self, l: &'ast syn::ExprLet) {
        self.visit_expr(&l.expr);
        self.pat(&l.pat);
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        self.bind(f.sig.ident.to_string());
    }
    fn visit_item_const(&mut self, f: &'ast syn::ItemConst) {
        self.bind(f.ident.to_string());
    }
    fn visit_expr_field(&mut self, e: &'ast syn::ExprField) {
        if let (syn::Expr::Path(p), syn::Member::Named(m)) = (&*e.base, &e.member) {
            if p.path.is_ident("self") {
                let n = m.to_string();
                if self.in_forward && !self.s.used.contains(&n) {
                    self.s.used.push(n);
                }
                return;
            }
        }
        visit::visit_expr_field(self, e);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.qself.is_none() {
            if let Some(i) = p.path.get_ident() {
                let n = i.to_string();
                let local = n.chars().next().is_some_and(|c| c.is_lowercase() || c == '_');
                if local && n != "self" && !self.bound(&n) {
                    self.s.unbound.insert(n);
                }
            }
        }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        // A plain function name is not a variable.
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(i) = p.path.get_ident() {
                if !self.bound(&i.to_string()) {
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                    return;
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
}

pub fn parse(text: &str) -> Result<Src, String> {
    let file = syn::parse_file(text).map_err(|e| e.to_string())?;
    let mut s = Src::default();
    for it in &file.items {
        match it {
            syn::Item::Struct(st) if st.ident == "Model" => {
                for f in &st.fields {
                    if let Some(i) = &f.ident {
                        s.fields.push(i.to_string());
                        let ty = &f.ty;
                        s.types.insert(i.to_string(), tokens(ty));
                    }
                }
            }
            syn::Item::Impl(im) => {
                for x in &im.items {
                    let syn::ImplItem::Fn(f) = x else { continue };
                    let name = f.sig.ident.to_string();
                    if name != "forward" && name != "new" {
                        continue;
                    }
                    let mut params = BTreeSet::new();
                    for a in &f.sig.inputs {
                        if let syn::FnArg::Typed(t) = a {
                            if let syn::Pat::Ident(i) = &*t.pat {
                                params.insert(i.ident.to_string());
                                if name == "forward" {
                                    s.params.push(i.ident.to_string());
                                }
                            }
                        }
                    }
                    if name == "new" {
                        struct L<'b>(&'b mut Vec<String>);
                        impl<'ast> Visit<'ast> for L<'_> {
                            fn visit_expr_struct(&mut self, e: &'ast syn::ExprStruct) {
                                if e.path.is_ident("Self") {
                                    for f in &e.fields {
                                        if let syn::Member::Named(n) = &f.member {
                                            self.0.push(n.to_string());
                                        }
                                    }
                                }
                                visit::visit_expr_struct(self, e);
                            }
                        }
                        let mut b = vec![];
                        L(&mut b).visit_block(&f.block);
                        s.built = b;
                    } else {
                        s.has_forward = true;
                    }
                    let fwd = name == "forward";
                    let mut v = Fwd { scopes: vec![params], s: &mut s, in_forward: fwd };
                    v.visit_block(&f.block);
                }
            }
            _ => {}
        }
    }
    Ok(s)
}
fn tokens(t: &syn::Type) -> String {
    // Enough for a label: the last path segment.
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

/// Position at which each field's value is consumed: for modules where it is
/// called, for constants where the variable it was read into is first used.
pub fn use_order(text: &str, fields: &[String]) -> Vec<String> {
    // The formatter may break a chain after `self`.
    let mut flat = String::with_capacity(text.len());
    for l in text.lines() {
        let t = l.trim();
        if t.starts_with('.') {
            flat.truncate(flat.trim_end().len());
        }
        flat.push_str(t);
        flat.push('\n');
    }
    let fwd = match flat.find("fn forward") {
        Some(p) => &flat[p..],
        None => return vec![],
    };
    let word = |hay: &str, from: usize, w: &str| -> Option<usize> {
        let mut at = from;
        while let Some(k) = hay[at..].find(w) {
            let p = at + k;
            let before = hay[..p].chars().next_back();
            let after = hay[p + w.len()..].chars().next();
            let idc = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
            if !idc(before) && !idc(after) {
                return Some(p);
            }
            at = p + w.len();
        }
        None
    };
    let mut pos: Vec<(usize, String)> = vec![];
    for f in fields {
        let Some(p) = word(fwd, 0, &format!("self.{f}")) else { continue };
        let stmt0 = fwd[..p].rfind(|c| c == ';' || c == '{' || c == '}').map(|x| x + 1).unwrap_or(0);
        let stmt1 = p + fwd[p..].find(';').unwrap_or(0);
        let stmt = &fwd[stmt0..stmt1];
        let t = stmt.trim();
        let plain = t.split_whitespace().collect::<String>();
        let mut at = p;
        if let Some(v) = t.strip_prefix("let ").and_then(|r| r.split('=').next()) {
            let v = v.trim();
            if plain.contains(&format!("=self.{f}.val()")) || plain.ends_with(&format!("=self.{f}.clone()")) {
                if let Some(q) = word(fwd, stmt1, v) {
                    at = q;
                }
            }
        }
        pos.push((at, f.clone()));
    }
    pos.sort();
    pos.into_iter().map(|x| x.1).collect()
}
