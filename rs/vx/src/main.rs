//! Index of a Rust source file: byte ranges of items, loops, closures, macros, awaits, attributes.
//! Output: JSON on stdout.  Everything textual is done by the caller from these ranges.
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn r(s: Span) -> Value {
    let b = s.byte_range();
    json!([b.start, b.end])
}
fn start(s: Span) -> usize {
    s.byte_range().start
}
fn end(s: Span) -> usize {
    s.byte_range().end
}

#[derive(Default)]
struct Body {
    loops: Vec<Value>,
    closures: Vec<Value>,
    macros: Vec<Value>,
    awaits: Vec<Value>,
    attrs: Vec<Value>,
    methods: Vec<Value>,
    calls: Vec<Value>,
    tries: Vec<Value>,
    stmts: Vec<Value>,
    returns: Vec<Value>,
    closure_depth: usize,
}

impl<'a> Visit<'a> for Body {
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        self.attrs.push(r(a.span()));
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.loops.push(json!({"kind":"for","span":r(l.span()),"pat":r(l.pat.span()),"expr":r(l.expr.span()),
            "label": l.label.as_ref().map(|x| x.to_token_stream().to_string()),
            "body":r(l.body.span())}));
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.loops.push(json!({"kind":"while","span":r(l.span()),"cond":r(l.cond.span()),"body":r(l.body.span())}));
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.loops.push(json!({"kind":"loop","span":r(l.span()),"body":r(l.body.span())}));
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let is_block = matches!(&*c.body, syn::Expr::Block(_));
        let params: Vec<Value> = c.inputs.iter().map(|p| json!({"text": p.to_token_stream().to_string(), "span": r(p.span()), "typed": matches!(p, syn::Pat::Type(_))})).collect();
        let has_ret = !matches!(c.output, syn::ReturnType::Default);
        self.closures.push(json!({"span":r(c.span()),"header":[start(c.span()), end(c.or2_token.span())],
            "body":r(c.body.span()),"block":is_block,"params":params,"ret":has_ret,"move":c.capture.is_some()}));
        self.closure_depth += 1;
        visit::visit_expr_closure(self, c);
        self.closure_depth -= 1;
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        self.macros.push(json!({"path": m.path.to_token_stream().to_string().replace(' ', ""),"span":r(m.span()), "tokens": m.tokens.to_string()}));
        // The elements of a vec! are code as any other one.
        if m.path.is_ident("vec") {
            if let Ok(elements) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in Box::leak(Box::new(elements)).iter() {
                    self.visit_expr(e);
                }
            }
        }
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let is_item = matches!(s, syn::Stmt::Item(_));
        let is_macro = matches!(s, syn::Stmt::Macro(_));
        let mpath = if let syn::Stmt::Macro(m) = s { m.mac.path.to_token_stream().to_string().replace(' ', "") } else { String::new() };
        self.stmts.push(json!({"span":r(s.span()),"item":is_item,"macro":is_macro,"mpath":mpath}));
        visit::visit_stmt(self, s);
    }
    fn visit_expr_await(&mut self, a: &'a syn::ExprAwait) {
        self.awaits.push(json!([end(a.base.span()), end(a.span())]));
        visit::visit_expr_await(self, a);
    }
    fn visit_expr_try(&mut self, a: &'a syn::ExprTry) {
        self.tries.push(json!({"span": r(a.span()), "expr": r(a.expr.span())}));
        visit::visit_expr_try(self, a);
    }
    fn visit_expr_return(&mut self, a: &'a syn::ExprReturn) {
        self.returns.push(json!({"span": r(a.span()), "in_closure": self.closure_depth > 0}));
        visit::visit_expr_return(self, a);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        let args: Vec<Value> = m.args.iter().map(|a| r(a.span())).collect();
        self.methods.push(json!({"name": m.method.to_string(), "name_span": r(m.method.span()),
            "recv": r(m.receiver.span()), "span": r(m.span()), "args": args,
            "recv_range": matches!(&*m.receiver, syn::Expr::Paren(p) if matches!(&*p.expr, syn::Expr::Range(_)))}));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        let args: Vec<Value> = c.args.iter().map(|a| r(a.span())).collect();
        self.calls.push(json!({"func": c.func.to_token_stream().to_string().replace(' ', ""), "span": r(c.span()), "args": args}));
        visit::visit_expr_call(self, c);
    }
}

struct File {
    items: Vec<Value>,
}

fn ty_name(t: &syn::Type) -> String {
    t.to_token_stream().to_string().replace(' ', "").replace('>', ">")
}

impl File {
    fn func(&mut self, path: String, span: Span, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: Option<&syn::Block>) {
        let mut b = Body::default();
        for i in &sig.inputs {
            b.visit_fn_arg(i);
        }
        if let Some(block) = block {
            b.visit_block(block);
        }
        let params: Vec<Value> = sig.inputs.iter().map(|i| match i {
            syn::FnArg::Receiver(rc) => json!({"self": true, "text": rc.to_token_stream().to_string(), "span": r(rc.span())}),
            syn::FnArg::Typed(t) => json!({"self": false, "pat": t.pat.to_token_stream().to_string(), "ty": t.ty.to_token_stream().to_string(), "span": r(t.span()), "ty_span": r(t.ty.span())}),
        }).collect();
        let out = match &sig.output {
            syn::ReturnType::Default => Value::Null,
            syn::ReturnType::Type(_, t) => r(t.span()),
        };
        let attr_spans: Vec<Value> = attrs.iter().map(|a| r(a.span())).collect();
        let cfg: Vec<String> = attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
        let tail = block.and_then(|b| b.stmts.last()).and_then(|s| if let syn::Stmt::Expr(e, None) = s { Some(r(e.span())) } else { None });
        self.items.push(json!({"kind":"fn","path":path,"span":r(span),"attrs":attr_spans,"attr_text":cfg,
            "vis": vis.map(|v| r(v.span())), "sig": r(sig.span()), "name": r(sig.ident.span()), "ident": sig.ident.to_string(),
            "is_async": sig.asyncness.map(|a| r(a.span())), "params": params, "output": out,
            "generics": r(sig.generics.span()), "where": sig.generics.where_clause.as_ref().map(|w| r(w.span())),
            "body": block.map(|b| r(b.span())), "tail": tail,
            "stmts_top": block.map(|b| b.stmts.iter().map(|s| r(s.span())).collect::<Vec<_>>()),
            "loops": b.loops, "closures": b.closures, "macros": b.macros, "awaits": b.awaits, "inner_attrs": b.attrs,
            "methods": b.methods, "calls": b.calls, "tries": b.tries, "stmts": b.stmts, "returns": b.returns}));
    }

    fn items(&mut self, prefix: &str, items: &[syn::Item]) {
        for it in items {
            match it {
                syn::Item::Fn(f) => self.func(format!("{prefix}{}", f.sig.ident), f.span(), &f.attrs, Some(&f.vis), &f.sig, Some(&f.block)),
                syn::Item::Impl(i) => {
                    let t = ty_name(&i.self_ty);
                    let head = match &i.trait_ {
                        Some((_, p, _)) => format!("<{} as {}>", t, p.to_token_stream().to_string().replace(' ', "")),
                        None => t,
                    };
                    for ii in &i.items {
                        match ii {
                            syn::ImplItem::Fn(f) => self.func(format!("{prefix}{head}::{}", f.sig.ident), f.span(), &f.attrs, Some(&f.vis), &f.sig, Some(&f.block)),
                            syn::ImplItem::Const(c) => self.items.push(json!({"kind":"const","path":format!("{prefix}{head}::{}", c.ident),"span":r(c.span()), "expr": r(c.expr.span()), "ty": r(c.ty.span())})),
                            _ => {}
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for ii in &t.items {
                        if let syn::TraitItem::Fn(f) = ii {
                            self.func(format!("{prefix}{}::{}", t.ident, f.sig.ident), f.span(), &f.attrs, None, &f.sig, f.default.as_ref());
                        }
                    }
                }
                syn::Item::Struct(s) => {
                    let mut b = Body::default();
                    for f in s.fields.iter() { b.visit_field(f); }
                    let fields: Vec<Value> = s.fields.iter().map(|f| json!({"name": f.ident.as_ref().map(|i| i.to_string()), "ty": f.ty.to_token_stream().to_string(), "vis": r(f.vis.span()), "has_vis": !matches!(f.vis, syn::Visibility::Inherited),
                        "start": f.ident.as_ref().map(|i| start(i.span())).unwrap_or(start(f.ty.span()))})).collect();
                    let at: Vec<Value> = s.attrs.iter().map(|a| r(a.span())).collect();
                    self.items.push(json!({"kind":"struct","path":format!("{prefix}{}", s.ident),"span":r(s.span()),"attrs":at,"attr_text": s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>(), "inner_attrs":b.attrs,"fields":fields,"kw":start(s.struct_token.span()), "vis": r(s.vis.span())}));
                }
                syn::Item::Enum(s) => {
                    let mut b = Body::default();
                    for v in s.variants.iter() { b.visit_variant(v); }
                    let at: Vec<Value> = s.attrs.iter().map(|a| r(a.span())).collect();
                    self.items.push(json!({"kind":"enum","path":format!("{prefix}{}", s.ident),"span":r(s.span()),"attrs":at,"attr_text": s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>(),"inner_attrs":b.attrs,"kw":start(s.enum_token.span()),
                        "variants": s.variants.iter().map(|v| v.ident.to_string()).collect::<Vec<_>>()}));
                }
                syn::Item::Const(c) => self.items.push(json!({"kind":"const","path":format!("{prefix}{}", c.ident),"span":r(c.span()), "expr": r(c.expr.span()), "ty": r(c.ty.span())})),
                syn::Item::Type(c) => self.items.push(json!({"kind":"type","path":format!("{prefix}{}", c.ident),"span":r(c.span())})),
                syn::Item::Mod(m) => {
                    let is_test = m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"));
                    if let (Some((_, items)), false) = (&m.content, is_test) {
                        self.items(&format!("{prefix}{}::", m.ident), items);
                    }
                }
                _ => {}
            }
        }
    }
}

fn main() {
    let mut res = serde_json::Map::new();
    for f in std::env::args().skip(1) {
        let v = match std::fs::read_to_string(&f) {
            Err(e) => json!({"error": e.to_string()}),
            Ok(src) => match syn::parse_file(&src) {
                Err(e) => json!({"error": e.to_string()}),
                Ok(file) => {
                    let mut fl = File { items: vec![] };
                    fl.items("", &file.items);
                    json!({"items": fl.items})
                }
            },
        };
        res.insert(f, v);
    }
    println!("{}", Value::Object(res));
}
