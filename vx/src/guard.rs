//! Locks with their guards made explicit (flag `guard_mutex`): a guard is acquired,
//! used through its value and released where the scope of its binding (or the
//! statement of a temporary) ends, `return`s included.
use crate::desugar::is_guard;
use proc_macro2::Span;
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Guards { all: BTreeSet<String>, moved: BTreeSet<String>, active: Vec<Ident>, loops: Vec<usize>, fresh: usize }

pub fn run(b: &mut Block) {
	let mut s = Scan { all: BTreeSet::new(), moved: BTreeSet::new(), ok: vec![] };
	s.visit_block(b);
	let mut g = Guards { all: s.all, moved: BTreeSet::new(), active: vec![], loops: vec![], fresh: 0 };
	let mut m = Scan { all: g.all.clone(), moved: BTreeSet::new(), ok: vec![] };
	m.visit_block(b);
	g.moved = m.moved;
	g.block(b);
}

fn name(e: &Expr) -> Option<String> { if let Expr::Path(p) = e { p.path.get_ident().map(ToString::to_string) } else { None } }
fn drops(e: &Expr) -> Option<Ident> {
	if let Expr::Call(c) = e {
		if let Expr::Path(p) = &*c.func {
			if p.path.segments.last().unwrap().ident == "drop" && c.args.len() == 1 {
				if let Expr::Path(x) = &c.args[0] { return x.path.get_ident().cloned(); }
			}
		}
	}
	None
}

/// Names bound to guards, and those of them that are moved.
struct Scan { all: BTreeSet<String>, moved: BTreeSet<String>, ok: Vec<String> }
impl<'x> Visit<'x> for Scan {
	fn visit_local(&mut self, l: &'x Local) {
		if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) { if is_guard(&i.expr).is_some() { self.all.insert(p.ident.to_string()); } }
		visit::visit_local(self, l);
	}
	fn visit_expr(&mut self, e: &'x Expr) {
		match e {
			Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && name(&u.expr).is_some() => return,
			Expr::MethodCall(m) if name(&m.receiver).is_some() => { for a in &m.args { self.visit_expr(a); } return; },
			Expr::Call(_) if drops(e).is_some() => return,
			Expr::Path(_) => if let Some(n) = name(e) { if self.all.contains(&n) { self.moved.insert(n); } },
			_ => {},
		}
		visit::visit_expr(self, e);
	}
}

impl Guards {
	fn ident(&mut self, p: &str) -> Ident { self.fresh += 1; Ident::new(&format!("vx_{p}{}", self.fresh), Span::call_site()) }
	fn release(&self, from: usize) -> Vec<Stmt> { self.active[from..].iter().rev().map(|g| parse_quote!(#g.vx_unlock();)).collect() }
	fn block(&mut self, b: &mut Block) {
		let base = self.active.len();
		let stmts = std::mem::take(&mut b.stmts);
		let n = stmts.len();
		for (k, mut s) in stmts.into_iter().enumerate() {
			if let Stmt::Local(l) = &mut s {
				if let (Pat::Ident(p), Some(i)) = (&mut l.pat, &mut l.init) {
					if let Some(place) = is_guard(&i.expr) {
						*i.expr = parse_quote!(#place.vx_lock());
						p.mutability = Some(Default::default());
						let g = p.ident.clone();
						b.stmts.push(s);
						if !self.moved.contains(&g.to_string()) { self.active.push(g); }
						continue;
					}
				}
			}
			if let Stmt::Expr(e, _) = &s {
				if let Some(g) = drops(e) {
					if self.all.contains(&g.to_string()) {
						self.active.retain(|x| *x != g);
						b.stmts.push(parse_quote!(#g.vx_unlock();));
						continue;
					}
				}
			}
			let tail = k + 1 == n;
			self.visit_stmt_mut(&mut s);
			if tail && self.active.len() > base {
				let ends = self.release(base);
				match s {
					Stmt::Expr(Expr::Return(_), _) => b.stmts.push(s),
					Stmt::Expr(e, None) => {
						let v = self.ident("r");
						b.stmts.push(parse_quote!(let #v = #e;));
						b.stmts.extend(ends);
						b.stmts.push(Stmt::Expr(parse_quote!(#v), None));
					},
					s => { b.stmts.push(s); b.stmts.extend(ends); },
				}
				self.active.truncate(base);
				return;
			}
			b.stmts.push(s);
		}
		if self.active.len() > base { let ends = self.release(base); b.stmts.extend(ends); self.active.truncate(base); }
	}
	/// The innermost guard in the receivers of a scrutinee.
	fn hoist(&mut self, e: &mut Expr, g: &Ident) -> Option<Expr> {
		if let Some(p) = is_guard(e) { *e = parse_quote!(#g.v); return Some(p); }
		match e {
			Expr::MethodCall(m) => self.hoist(&mut m.receiver, g),
			Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is_guard(&u.expr).is_some() => { let p = is_guard(&u.expr); *e = parse_quote!(#g.v); p },
			Expr::Unary(u) => self.hoist(&mut u.expr, g),
			Expr::Reference(r) => self.hoist(&mut r.expr, g),
			Expr::Paren(p) => self.hoist(&mut p.expr, g),
			_ => None,
		}
	}
}

impl VisitMut for Guards {
	fn visit_block_mut(&mut self, b: &mut Block) { self.block(b); }
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		// Scrutinees: the temporary lives as long as the statement.
		let scrut: Option<&mut Expr> = match e {
			Expr::If(i) => if let Expr::Let(l) = &mut *i.cond { Some(&mut *l.expr) } else { None },
			Expr::Match(m) => Some(&mut *m.expr),
			_ => None,
		};
		if let Some(x) = scrut {
			let g = self.ident("g");
			if let Some(place) = self.hoist(x, &g) {
				self.active.push(g.clone());
				visit_mut::visit_expr_mut(self, e);
				self.active.pop();
				let v = self.ident("r");
				let x = e.clone();
				*e = parse_quote!({ let mut #g = #place.vx_lock(); let #v = #x; #g.vx_unlock(); #v });
				return;
			}
		}
		match e {
			// `*guard = x`: x comes first.
			Expr::Assign(a) => {
				if let Expr::Unary(u) = &*a.left {
					if matches!(u.op, UnOp::Deref(_)) {
						if let Some(place) = is_guard(&u.expr) {
							let (v, g) = (self.ident("v"), self.ident("g"));
							let mut x = (*a.right).clone();
							self.visit_expr_mut(&mut x);
							*e = parse_quote!({ let #v = #x; let mut #g = #place.vx_lock(); #g.vx_set(#v); #g.vx_unlock(); });
							return;
						}
						if let Some(n) = name(&u.expr) {
							if self.all.contains(&n) {
								let g = Ident::new(&n, Span::call_site());
								let mut x = (*a.right).clone();
								self.visit_expr_mut(&mut x);
								*e = parse_quote!(#g.vx_set(#x));
								return;
							}
						}
					}
				}
			},
			Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
				if let Some(place) = is_guard(&u.expr) {
					let (v, g) = (self.ident("v"), self.ident("g"));
					*e = parse_quote!({ let mut #g = #place.vx_lock(); let #v = #g.v; #g.vx_unlock(); #v });
					return;
				}
				if let Some(n) = name(&u.expr) {
					if self.all.contains(&n) { let g = &u.expr; *e = parse_quote!(#g.v); return; }
				}
			},
			Expr::MethodCall(m) => {
				if let Some(place) = is_guard(&m.receiver) {
					let (v, g) = (self.ident("v"), self.ident("g"));
					let mut m = m.clone();
					for a in m.args.iter_mut() { self.visit_expr_mut(a); }
					*m.receiver = parse_quote!(#g.v);
					*e = parse_quote!({ let mut #g = #place.vx_lock(); let #v = #m; #g.vx_unlock(); #v });
					return;
				}
				if let Some(n) = name(&m.receiver) {
					if self.all.contains(&n) { let g = &m.receiver; let x: Expr = parse_quote!(#g.v); *m.receiver = x; for a in m.args.iter_mut() { self.visit_expr_mut(a); } return; }
				}
			},
			Expr::Return(r) => {
				if let Some(x) = &mut r.expr { self.visit_expr_mut(x); }
				if !self.active.is_empty() {
					let ends = self.release(0);
					match r.expr.take() {
						Some(x) => { let v = self.ident("r"); *e = parse_quote!({ let #v = #x; #(#ends)* return #v; }); },
						None => *e = parse_quote!({ #(#ends)* return; }),
					}
				}
				return;
			},
			Expr::Break(b) if b.label.is_none() && b.expr.is_none() => { if let Some(n) = self.loops.last() { let ends = self.release(*n); if !ends.is_empty() { *e = parse_quote!({ #(#ends)* break; }); } } return; },
			Expr::Continue(b) if b.label.is_none() => { if let Some(n) = self.loops.last() { let ends = self.release(*n); if !ends.is_empty() { *e = parse_quote!({ #(#ends)* continue; }); } } return; },
			Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
				self.loops.push(self.active.len());
				visit_mut::visit_expr_mut(self, e);
				self.loops.pop();
				return;
			},
			Expr::Closure(_) => {
				let a = std::mem::take(&mut self.active);
				visit_mut::visit_expr_mut(self, e);
				self.active = a;
				return;
			},
			_ => {},
		}
		visit_mut::visit_expr_mut(self, e);
	}
}
