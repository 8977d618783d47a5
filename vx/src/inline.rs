//! Inlining of helper functions that have no contract of their own: the call is
//! replaced with the helper's body, its parameters bound to the arguments first.
//! Only bodies without `return` and `?` (unless the call is the tail of the caller).
use crate::find::Func;
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Inline<'a> {
	pub funcs: &'a [Func],
	/// Keys and bare names with a contract.
	pub planned: &'a BTreeSet<String>,
	pub self_ty: Option<String>,
	pub key: String,
	pub depth: usize,
	pub tail: bool,
	pub fresh: usize,
	pub done: Vec<String>,
}

struct Ctl(bool);
impl<'x> Visit<'x> for Ctl {
	fn visit_expr_return(&mut self, _: &'x ExprReturn) { self.0 = true; }
	fn visit_expr_try(&mut self, _: &'x ExprTry) { self.0 = true; }
	fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
	fn visit_item(&mut self, _: &'x Item) {}
}
struct Named(bool);
impl<'x> Visit<'x> for Named {
	fn visit_lifetime(&mut self, l: &'x Lifetime) { if l.ident != "static" && l.ident != "_" { self.0 = true; } }
	fn visit_type_impl_trait(&mut self, _: &'x TypeImplTrait) { self.0 = true; }
	fn visit_path(&mut self, p: &'x Path) { if p.segments.len() > 0 && p.segments[0].ident == "Self" { self.0 = true; } visit::visit_path(self, p); }
}

impl Inline<'_> {
	fn target(&self, name: &str, ty: Option<&str>) -> Option<&Func> {
		let keys: Vec<String> = match ty {
			Some("Self") => vec![format!("{}::{name}", self.self_ty.as_ref()?)],
			Some(t) => vec![format!("{t}::{name}")],
			None => vec![name.to_owned(), format!("{}::{name}", self.key)],
		};
		let hits: Vec<&Func> = self.funcs.iter().filter(|f| keys.contains(&f.key)).collect();
		if hits.len() != 1 || self.planned.contains(&hits[0].key) { return None; }
		let f = hits[0];
		if f.sig.asyncness.is_some() || f.sig.unsafety.is_some() { return None; }
		// Only helpers of this crate's own modules; never recursive.
		struct Rec<'n>(&'n str, bool);
		impl<'x> Visit<'x> for Rec<'_> {
			fn visit_expr_call(&mut self, c: &'x ExprCall) { if let Expr::Path(p) = &*c.func { if p.path.segments.last().unwrap().ident == self.0 { self.1 = true; } } visit::visit_expr_call(self, c); }
			fn visit_expr_method_call(&mut self, c: &'x ExprMethodCall) { if c.method == self.0 { if let Expr::Path(p) = &*c.receiver { if p.path.is_ident("self") { self.1 = true; } } } visit::visit_expr_method_call(self, c); }
		}
		let mut r = Rec(name, false);
		r.visit_block(&f.block);
		if r.1 { return None; }
		Some(f)
	}
	fn expand(&mut self, f: &Func, args: Vec<Expr>, tail: bool) -> Option<Expr> {
		let mut c = Ctl(false);
		c.visit_block(&f.block);
		if c.0 && !tail { return None; }
		let typed: Vec<&PatType> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
		if typed.len() != args.len() { return None; }
		let generic = f.sig.generics.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_)));
		let mut stmts: Vec<Stmt> = Vec::new();
		let mut second: Vec<Stmt> = Vec::new();
		for (t, a) in typed.iter().zip(args) {
			self.fresh += 1;
			let tmp = Ident::new(&format!("vx_in{}", self.fresh), proc_macro2::Span::call_site());
			let mut n = Named(false);
			n.visit_type(&t.ty);
			let (p, ty) = (&t.pat, &t.ty);
			stmts.push(parse_quote!(let #tmp = #a;));
			second.push(if generic || n.0 { parse_quote!(let #p = #tmp;) } else { parse_quote!(let #p: #ty = #tmp;) });
		}
		stmts.extend(second);
		stmts.extend(f.block.stmts.iter().cloned());
		let mut b: Block = parse_quote!({});
		b.stmts = stmts;
		self.done.push(f.key.clone());
		if self.depth < 4 {
			self.depth += 1;
			let t = std::mem::replace(&mut self.tail, tail);
			self.block(&mut b, tail);
			self.tail = t;
			self.depth -= 1;
		}
		Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
	}
	pub fn block(&mut self, b: &mut Block, tail: bool) {
		let n = b.stmts.len();
		for (k, s) in b.stmts.iter_mut().enumerate() {
			if let Stmt::Item(_) = s { continue; }
			if tail && k + 1 == n {
				if let Stmt::Expr(e, None) = s { self.tail = true; self.visit_expr_mut(e); self.tail = false; continue; }
			}
			self.tail = false;
			self.visit_stmt_mut(s);
		}
	}
}

impl VisitMut for Inline<'_> {
	fn visit_block_mut(&mut self, b: &mut Block) { let t = self.tail; self.tail = false; self.block(b, t); }
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		let tail = std::mem::replace(&mut self.tail, false);
		match e {
			Expr::Call(c) => {
				if let Expr::Path(p) = &*c.func {
					if p.qself.is_none() {
						let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
						let name = segs.last().unwrap().clone();
						let ty = if segs.len() > 1 { let t = &segs[segs.len() - 2]; if t.chars().next().is_some_and(char::is_uppercase) { Some(t.clone()) } else { None } } else { None };
						if name.chars().next().is_some_and(char::is_lowercase) {
							if let Some(f) = self.target(&name, ty.as_deref()).cloned() {
								let has_recv = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)));
								if !has_recv {
									let mut args: Vec<Expr> = c.args.iter().cloned().collect();
									for a in &mut args { self.visit_expr_mut(a); }
									if let Some(x) = self.expand(&f, args, tail) { *e = x; return; }
								}
							}
						}
					}
				}
			},
			Expr::MethodCall(m) => {
				let is_self = if let Expr::Path(p) = &*m.receiver { p.path.is_ident("self") } else { false };
				if is_self {
					if let Some(f) = self.target(&m.method.to_string(), Some("Self")).cloned() {
						if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
							let mut args: Vec<Expr> = m.args.iter().cloned().collect();
							for a in &mut args { self.visit_expr_mut(a); }
							if let Some(x) = self.expand(&f, args, tail) { *e = x; return; }
						}
					}
				}
			},
			// Tails of branches.
			Expr::If(i) if tail => {
				self.visit_expr_mut(&mut i.cond);
				self.block(&mut i.then_branch, true);
				if let Some((_, x)) = &mut i.else_branch { self.tail = true; self.visit_expr_mut(x); }
				self.tail = false;
				return;
			},
			Expr::Match(m) if tail => {
				self.visit_expr_mut(&mut m.expr);
				for a in &mut m.arms { if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); } self.tail = true; self.visit_expr_mut(&mut a.body); }
				self.tail = false;
				return;
			},
			Expr::Block(b) if tail => { self.block(&mut b.block, true); return; },
			Expr::Return(r) => { if let Some(x) = &mut r.expr { self.tail = true; self.visit_expr_mut(x); self.tail = false; } return; },
			Expr::Closure(_) => {},
			_ => {},
		}
		visit_mut::visit_expr_mut(self, e);
	}
	fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Parameter names, then every name bound in the body, in order.
pub fn names(f: &Func) -> (Vec<String>, Vec<String>) {
	struct V(Vec<String>);
	impl<'x> Visit<'x> for V {
		fn visit_pat_ident(&mut self, p: &'x PatIdent) {
			let n = p.ident.to_string();
			if n.chars().next().is_some_and(|c| c.is_lowercase() || c == '_') { self.0.push(n); }
			visit::visit_pat_ident(self, p);
		}
		fn visit_item(&mut self, _: &'x Item) {}
	}
	let mut v = V(vec![]);
	v.visit_block(&f.block);
	let args = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() }) } else { None }).collect();
	(args, v.0)
}
