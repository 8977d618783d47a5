//! Rewrites of function bodies into the dialect of the verifier. Each keeps the
//! meaning; none adds or removes an effect. A construct outside of the list is
//! left alone (the verifier then refuses the function, which is reported).
use crate::plan::{FnPlan, Plan};
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx<'a> {
	pub plan: &'a Plan,
	pub f: &'a FnPlan,
	pub marks: Vec<String>,
	pub lits: Vec<String>,
	pub errors: Vec<String>,
	loops: usize,
	closures: usize,
	fresh: usize,
	calls: BTreeMap<String, usize>,
	frames: Vec<Vec<(String, usize)>>,
	/// `Self::Name` substitutions.
	pub assoc: BTreeMap<String, Type>,
	pub self_ty: Option<Type>,
	pub used_anchors: usize,
	/// Names bound by `iter_mut` loops, with the indexed place.
	places: BTreeMap<String, Expr>,
}

const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "str", "char", "bool", "f32", "f64"];

fn ident(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

pub fn mark_stmt(n: usize) -> Stmt {
	let lit = LitInt::new(&n.to_string(), Span::call_site());
	parse_quote!(__vx_mark!(#lit);)
}

pub fn is_guard(e: &Expr) -> Option<Expr> {
	// X.lock().unwrap_or_else(PoisonError::into_inner)
	if let Expr::MethodCall(m) = e {
		if m.method == "unwrap_or_else" {
			if let Expr::MethodCall(l) = &*m.receiver {
				if l.method == "lock" && l.args.is_empty() && m.args.len() == 1 && m.args[0].to_token_stream().to_string().ends_with("into_inner") {
					return Some((*l.receiver).clone());
				}
			}
		}
	}
	None
}

impl<'a> Ctx<'a> {
	pub fn new(plan: &'a Plan, f: &'a FnPlan) -> Self {
		Self { plan, f, marks: vec![], lits: vec![], errors: vec![], loops: 0, closures: 0, fresh: 0, calls: BTreeMap::new(), frames: vec![], assoc: BTreeMap::new(), self_ty: None, used_anchors: 0, places: BTreeMap::new() }
	}
	/// Ghost arguments of a call.
	fn extra(&self, name: &str) -> Vec<Expr> {
		let Some(x) = self.f.callargs.get(name).or_else(|| self.plan.callargs.get(name)) else { return vec![]; };
		let Expr::Tuple(t) = syn::parse_str::<Expr>(&format!("({x},)")).expect("callargs") else { unreachable!() };
		t.elems.into_iter().collect()
	}
	fn mark(&mut self, s: &str) -> Stmt { self.marks.push(s.to_owned()); mark_stmt(self.marks.len() - 1) }
	fn fresh(&mut self, p: &str) -> Ident { self.fresh += 1; ident(&format!("vx_{p}{}", self.fresh)) }
	fn err(&mut self, s: impl Into<String>) { self.errors.push(s.into()); }

	fn rename_path(&mut self, p: &mut Path) {
		// Self::Assoc
		if p.segments.len() == 2 && p.segments[0].ident == "Self" {
			if let Some(Type::Path(t)) = self.assoc.get(&p.segments[1].ident.to_string()) { *p = t.path.clone(); return; }
		}
		// Flatten: start at the first segment that is a type or primitive, else the last.
		let n = p.segments.len();
		let full: String = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
		if let Some(r) = self.f.paths.get(&full).or_else(|| self.plan.paths.get(&full)) {
			let mut np: Path = match syn::parse_str(r) { Ok(p) => p, Err(_) => { self.err(format!("bad path {r}")); return; } };
			if let (Some(a), Some(b)) = (np.segments.last_mut(), p.segments.last()) { if a.arguments.is_none() { a.arguments = b.arguments.clone(); } }
			*p = np;
			return;
		}
		let mut start = n - 1;
		for (k, s) in p.segments.iter().enumerate() {
			let id = s.ident.to_string();
			if id.chars().next().is_some_and(char::is_uppercase) || PRIMS.contains(&id.as_str()) { start = k; break; }
		}
		if start > 0 || p.leading_colon.is_some() {
			p.leading_colon = None;
			p.segments = p.segments.iter().skip(start).cloned().collect();
		}
		let full: String = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
		let hit = self.f.paths.get(&full).or_else(|| self.plan.paths.get(&full)).cloned();
		if let Some(r) = hit {
			let np: Path = syn::parse_str(&r).expect("path");
			let last = p.segments.last().unwrap().arguments.clone();
			*p = np;
			if p.segments.last().unwrap().arguments.is_none() { p.segments.last_mut().unwrap().arguments = last; }
			return;
		}
		// First segment (a type) alone.
		let first = p.segments[0].ident.to_string();
		if let Some(r) = self.f.paths.get(&first).or_else(|| self.plan.paths.get(&first)).cloned() {
			let np: Path = syn::parse_str(&r).expect("path");
			let args = p.segments[0].arguments.clone();
			let mut segs: Vec<PathSegment> = np.segments.into_iter().collect();
			if segs.last().unwrap().arguments.is_none() { segs.last_mut().unwrap().arguments = args; }
			segs.extend(p.segments.iter().skip(1).cloned());
			p.segments = segs.into_iter().collect();
		}
	}

	/// A string or byte-string literal used as pattern, or a slice pattern: fresh binding + condition.
	fn lit_pat(&mut self, p: &Pat, bind: &Ident) -> Option<TokenStream> {
		match p {
			Pat::Lit(l) => match &l.lit {
				Lit::Str(s) => { self.lits.push(s.value()); Some(quote!(vx_seq(#bind, #s))) },
				Lit::ByteStr(b) => { let v = b.value(); let n = v.iter().map(|x| LitInt::new(&format!("{x}u8"), Span::call_site())); Some(quote!(vx_beq(#bind, &[#(#n),*]))) },
				_ => None,
			},
			Pat::Or(o) => {
				let mut parts = Vec::new();
				for c in &o.cases { parts.push(self.lit_pat(c, bind)?); }
				Some(quote!((#(#parts)||*)))
			},
			Pat::Paren(p) => self.lit_pat(&p.pat, bind),
			Pat::Slice(s) => {
				// [.., lit, lit] only.
				let mut it = s.elems.iter();
				if !matches!(it.next(), Some(Pat::Rest(_))) { return None; }
				let rest: Vec<&Pat> = it.collect();
				let n = rest.len();
				let mut conds = vec![{ let l = LitInt::new(&n.to_string(), Span::call_site()); quote!(#bind.len() >= #l) }];
				for (k, p) in rest.iter().enumerate() {
					let Pat::Lit(l) = p else { return None; };
					let back = LitInt::new(&(n - k).to_string(), Span::call_site());
					let v = match &l.lit { Lit::Byte(b) => { let x = LitInt::new(&format!("{}u8", b.value()), Span::call_site()); quote!(#x) }, o => quote!(#o) };
					conds.push(quote!(#bind[#bind.len() - #back] == #v));
				}
				Some(quote!((#(#conds)&&*)))
			},
			_ => None,
		}
	}
	fn fix_pat(&mut self, p: &mut Pat, conds: &mut Vec<TokenStream>) {
		if matches!(p, Pat::Lit(_) | Pat::Or(_) | Pat::Slice(_) | Pat::Paren(_)) {
			let b = self.fresh("p");
			if let Some(c) = self.lit_pat(p, &b) {
				conds.push(c);
				*p = parse_quote!(#b);
				return;
			}
		}
		match p {
			Pat::TupleStruct(t) => for e in t.elems.iter_mut() { self.fix_pat(e, conds); },
			Pat::Tuple(t) => for e in t.elems.iter_mut() { self.fix_pat(e, conds); },
			Pat::Reference(r) => self.fix_pat(&mut r.pat, conds),
			Pat::Paren(r) => self.fix_pat(&mut r.pat, conds),
			Pat::Struct(s) => for f in s.fields.iter_mut() { self.fix_pat(&mut f.pat, conds); },
			Pat::Ident(i) => if let Some((_, s)) = &mut i.subpat { self.fix_pat(s, conds); },
			_ => {},
		}
	}

	/// `|p| body` or a function path, applied to `arg`.
	fn apply(&mut self, f: &Expr, arg: Option<&Expr>) -> Option<(Option<Pat>, Expr)> {
		match f {
			Expr::Closure(c) => {
				if has_ctl(&c.body) { self.err("closure with return or ?"); return None; }
				let mut ins = c.inputs.iter();
				let p = ins.next().cloned();
				if ins.next().is_some() { return None; }
				let p = p.map(|p| if let Pat::Type(t) = p { *t.pat } else { p });
				Some((p, (*c.body).clone()))
			},
			Expr::Path(_) => {
				let b = self.fresh("a");
				let body: Expr = match arg { _ => parse_quote!(#f(#b)) };
				Some((Some(parse_quote!(#b)), body))
			},
			_ => None,
		}
	}

	fn combinator(&mut self, m: &ExprMethodCall, ord: usize) -> Option<Expr> {
		let name = m.method.to_string();
		let r = &m.receiver;
		let kind = self.f.kinds.get(&format!("{name}#{ord}")).or_else(|| self.f.kinds.get(&name)).map_or("option", String::as_str).to_owned();
		if kind == "keep" { return None; }
		if let Some(x) = self.iter_combinator(m) { return Some(x); }
		// An atomic update is its load and its commit (which happen at once).
		if name == "fetch_update" && m.args.len() == 3 {
			let place = matches!(&**r, Expr::Path(_) | Expr::Field(_));
			let (p, b) = self.apply(&m.args[2], None)?;
			let Some(Pat::Ident(p)) = p else { return None; };
			if !place { return None; }
			let (q, v) = (self.fresh("q"), self.fresh("v"));
			let p = &p.ident;
			let x = self.extra("fetch_update");
			return Some(parse_quote!({ let #q = #r.vx_fu_load(#(#x),*); let #p = #q; match #b { Some(#v) => { #r.vx_fu_commit(#q, #v #(, #x)*); Ok(#q) }, None => Err(#q) } }));
		}
		// Both sides are evaluated, in order.
		if name == "zip" && m.args.len() == 1 && kind == "option" {
			let mut a = m.args[0].clone();
			self.visit_expr_mut(&mut a);
			let (x, y) = (self.fresh("v"), self.fresh("w"));
			return Some(parse_quote!(match (#r, #a) { (Some(#x), Some(#y)) => Some((#x, #y)), _ => None }));
		}
		let callable = |e: &Expr| matches!(e, Expr::Closure(_) | Expr::Path(_));
		let last = m.args.last()?;
		if !callable(last) { return None; }
		if let Expr::Path(p) = last { if p.path.segments.len() < 2 && name != "map" { return None; } }
		Some(match (kind.as_str(), name.as_str(), m.args.len()) {
			("option", "or_else", 1) => { let (p, b) = self.apply(last, None)?; if p.is_some() { return None; } let v = self.fresh("v"); parse_quote!(match #r { Some(#v) => Some(#v), None => #b }) },
			("option", "unwrap_or_else", 1) => { let (p, b) = self.apply(last, None)?; if p.is_some() { return None; } let v = self.fresh("v"); parse_quote!(match #r { Some(#v) => #v, None => #b }) },
			("option", "filter", 1) => { let (p, b) = self.apply(last, None)?; let p = p?; let v = self.fresh("v"); parse_quote!(match #r { Some(#v) => { let #p = &#v; if #b { Some(#v) } else { None } }, None => None }) },
			(_, "then", 1) if matches!(last, Expr::Closure(c) if c.inputs.is_empty()) => { let (_, b) = self.apply(last, None)?; parse_quote!(if #r { Some(#b) } else { None }) },
			("option", "map", 1) => { let (p, b) = self.apply(last, None)?; let p = p?; parse_quote!(match #r { Some(#p) => Some(#b), None => None }) },
			("option", "and_then", 1) => { let (p, b) = self.apply(last, None)?; let p = p?; parse_quote!(match #r { Some(#p) => #b, None => None }) },
			("option", "is_some_and", 1) => { let (p, b) = self.apply(last, None)?; let p = p?; parse_quote!(match #r { Some(#p) => #b, None => false }) },
			("option", "is_none_or", 1) => { let (p, b) = self.apply(last, None)?; let p = p?; parse_quote!(match #r { Some(#p) => #b, None => true }) },
			("option", "map_or", 2) => { let (p, b) = self.apply(last, None)?; let p = p?; let d = &m.args[0]; let x = self.fresh("r"); let y = self.fresh("d"); parse_quote!({ let #x = #r; let #y = #d; match #x { Some(#p) => #b, None => #y } }) },
			("option", "map_or_else", 2) => { let (p0, b0) = self.apply(&m.args[0], None)?; if p0.is_some() { return None; } let (p, b) = self.apply(last, None)?; let p = p?; parse_quote!(match #r { Some(#p) => #b, None => #b0 }) },
			("option", "ok_or_else", 1) => { let (p, b) = self.apply(last, None)?; if p.is_some() { return None; } let v = self.fresh("v"); parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) }) },
			("result", "map", 1) => { let (p, b) = self.apply(last, None)?; let p = p?; let v = self.fresh("v"); parse_quote!(match #r { Ok(#p) => Ok(#b), Err(#v) => Err(#v) }) },
			("result", "map_err", 1) | ("option", "map_err", 1) => { let (p, b) = self.apply(last, None)?; let p = p?; let v = self.fresh("v"); parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }) },
			("result", "and_then", 1) => { let (p, b) = self.apply(last, None)?; let p = p?; let v = self.fresh("v"); parse_quote!(match #r { Ok(#p) => #b, Err(#v) => Err(#v) }) },
			_ => return None,
		})
	}

	/// Iterator consumers with closure literals become loops.
	fn iter_combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
		let name = m.method.to_string();
		let Some(Expr::Closure(c)) = m.args.last() else { return None; };
		if !matches!((name.as_str(), m.args.len()), ("fold", 2) | ("position", 1) | ("find_map", 1) | ("any", 1) | ("all", 1) | ("for_each", 1)) { return None; }
		if has_ctl(&c.body) { self.err("closure with return or ?"); return None; }
		let n = self.loops;
		let r = &m.receiver;
		let it = ident(&format!("vx_it{n}"));
		let place = matches!(&**r, Expr::Path(_) | Expr::Field(_));
		let (open, src): (Stmt, Expr) =
			if place && name != "fold" && name != "for_each" { (parse_quote!(let vx_z = ();), (**r).clone()) }
			else { (parse_quote!(let mut #it = vx_into_iter(#r);), parse_quote!(#it)) };
		let pats: Vec<Pat> = c.inputs.iter().map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect();
		let body = &c.body;
		let acc = ident(&format!("vx_acc{n}"));
		let k = ident(&format!("vx_k{n}"));
		Some(match (name.as_str(), pats.as_slice()) {
			("fold", [a, v]) => { let init = &m.args[0]; parse_quote!({ #open let mut #acc = #init; while let Some(#v) = #src.next() { let #a = #acc; #acc = #body; } #acc }) },
			("position", [v]) => parse_quote!({ #open let mut #k: usize = 0; let mut #acc: Option<usize> = None; while let Some(#v) = #src.next() { if #body { #acc = Some(#k); break; } #k += 1; } #acc }),
			("find_map", [v]) => parse_quote!({ #open let mut #acc = None; while let Some(#v) = #src.next() { #acc = #body; if #acc.is_some() { break; } } #acc }),
			("any", [v]) => parse_quote!({ #open let mut #acc = false; while let Some(#v) = #src.next() { if #body { #acc = true; break; } } #acc }),
			("all", [v]) => parse_quote!({ #open let mut #acc = true; while let Some(#v) = #src.next() { if ! (#body) { #acc = false; break; } } #acc }),
			("for_each", [v]) => parse_quote!({ #open while let Some(#v) = #src.next() { #body; } }),
			_ => return None,
		})
	}

	/// `for` loops.
	fn for_loop(&mut self, l: &ExprForLoop, n: usize) -> Expr {
		let label = &l.label;
		let body = &l.body;
		let pat = &l.pat;
		// X.iter_mut().skip(k) with *v
		if let Some((place, skip)) = iter_mut_skip(&l.expr) {
			if let Pat::Ident(id) = &**pat {
				let i = ident(&format!("vx_i{n}"));
				let name = id.ident.to_string();
				self.places.insert(name.clone(), parse_quote!(#place[#i]));
				let mut b = body.clone();
				Deref { name, to: parse_quote!(#place[#i]), bad: false }.visit_block_mut(&mut b);
				let stmts = &b.stmts;
				return parse_quote!({ let mut #i: usize = #skip; #label while #i < #place.len() { #(#stmts)* #i += 1; } });
			}
		}
		if let Expr::MethodCall(m) = &*l.expr {
			if m.method == "by_ref" && m.args.is_empty() {
				let r = &m.receiver;
				return parse_quote!(#label while let Some(#pat) = #r.next() #body);
			}
		}
		if matches!(&*l.expr, Expr::Range(_)) { return Expr::ForLoop(l.clone()); }
		let it = ident(&format!("vx_it{n}"));
		let e = &l.expr;
		// A constant array.
		if let Expr::Path(p) = &**e {
			let c = p.path.segments.last().unwrap().ident.to_string();
			if c.len() > 1 && c.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
				return parse_quote!({ let mut #it = VxArray::new(#e); #label while let Some(#pat) = #it.next() #body });
			}
		}
		parse_quote!({ let mut #it = vx_into_iter(#e); #label while let Some(#pat) = #it.next() #body })
	}
}

fn iter_mut_skip(e: &Expr) -> Option<(Expr, Expr)> {
	if let Expr::MethodCall(s) = e {
		if s.method == "skip" && s.args.len() == 1 {
			if let Expr::MethodCall(i) = &*s.receiver {
				if i.method == "iter_mut" && i.args.is_empty() { return Some(((*i.receiver).clone(), s.args[0].clone())); }
			}
		}
		if s.method == "iter_mut" && s.args.is_empty() { return Some(((*s.receiver).clone(), parse_quote!(0usize))); }
	}
	None
}

/// Uses of a guard by the name it is bound to, as uses of the place; not if the name is bound again.
struct Unguard { name: String, to: Expr, bad: bool, held: bool, used: bool }
impl VisitMut for Unguard {
	fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.ident == self.name { self.bad = true; } }
	fn visit_macro_mut(&mut self, m: &mut Macro) { if m.tokens.to_string().contains(&self.name) && !m.path.is_ident("__vx_mark") { self.bad = true; } }
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		let named = |x: &Expr| matches!(x, Expr::Path(p) if p.path.is_ident(&self.name));
		match e {
			Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && named(&u.expr) => { *e = self.to.clone(); self.used = true; return; },
			Expr::Call(c) if c.args.len() == 1 && named(&c.args[0]) => {
				if c.func.to_token_stream().to_string().ends_with("drop") { *e = parse_quote!(()); } else { self.bad = true; }
				return;
			},
			Expr::MethodCall(m) if m.args.iter().any(named) => self.bad = true,
			Expr::Field(f) if matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self")) => {
				if f.to_token_stream().to_string() == self.to.to_token_stream().to_string() { self.held = true; }
				return;
			},
			Expr::Path(p) => {
				if p.path.is_ident("self") { self.held = true; }
				if p.path.is_ident(&self.name) { *e = self.to.clone(); self.used = true; }
				return;
			},
			_ => {},
		}
		visit_mut::visit_expr_mut(self, e);
	}
}

struct Deref { name: String, to: Expr, bad: bool }
impl VisitMut for Deref {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		if let Expr::Unary(u) = e {
			if matches!(u.op, UnOp::Deref(_)) {
				if let Expr::Path(p) = &*u.expr { if p.path.is_ident(&self.name) { *e = self.to.clone(); return; } }
			}
		}
		visit_mut::visit_expr_mut(self, e);
	}
}

/// `&mut [IoSlice::new(a), ...]`
fn io_slices(e: &Expr) -> Option<Vec<Expr>> {
	let Expr::Reference(r) = e else { return None; };
	if r.mutability.is_none() { return None; }
	let Expr::Array(a) = &*r.expr else { return None; };
	a.elems.iter().map(|x| {
		let Expr::Call(c) = x else { return None; };
		if c.args.len() != 1 || !c.func.to_token_stream().to_string().ends_with("IoSlice :: new") { return None; }
		Some(c.args[0].clone())
	}).collect()
}

/// `format_args!("a{0}b", x)` as `VxFmt::new().lit("a").arg(&x).lit("b")`; plain placeholders only.
fn fmt_chain(t: &TokenStream) -> Option<Expr> {
	use syn::punctuated::Punctuated;
	let args = syn::parse::Parser::parse2(Punctuated::<Expr, Token![,]>::parse_terminated, t.clone()).ok()?;
	let mut args = args.into_iter();
	let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = args.next() else { return None; };
	let args: Vec<Expr> = args.collect();
	let f: Vec<char> = f.value().chars().collect();
	let mut x: Expr = parse_quote!(VxFmt::new());
	let (mut lit, mut next, mut i) = (String::new(), 0, 0);
	while i < f.len() {
		if (f[i] == '{' || f[i] == '}') && f.get(i + 1) == Some(&f[i]) { lit.push(f[i]); i += 2; }
		else if f[i] == '{' {
			let end = (i..f.len()).find(|&k| f[k] == '}')?;
			let name: String = f[i + 1..end].iter().collect();
			let a: Expr = if name.is_empty() { next += 1; args.get(next - 1)?.clone() }
				else if let Ok(n) = name.parse::<usize>() { args.get(n)?.clone() }
				else { let a: Ident = syn::parse_str(&name).ok()?; parse_quote!(#a) };
			if !lit.is_empty() { x = parse_quote!(#x.lit(#lit)); lit.clear(); }
			x = parse_quote!(#x.arg(&#a));
			i = end + 1;
		}
		else { lit.push(f[i]); i += 1; }
	}
	if !lit.is_empty() { x = parse_quote!(#x.lit(#lit)); }
	Some(x)
}

fn has_ctl(e: &Expr) -> bool {
	struct V(bool);
	impl<'x> syn::visit::Visit<'x> for V {
		fn visit_expr_return(&mut self, _: &'x ExprReturn) { self.0 = true; }
		fn visit_expr_try(&mut self, _: &'x ExprTry) { self.0 = true; }
		fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
	}
	let mut v = V(false);
	syn::visit::Visit::visit_expr(&mut v, e);
	v.0
}

/// The expansion of assert_eq!: match (&(L), &(R)) { (left_val, right_val) => { if !(*left_val == *right_val) {...} } }
fn assert_shape(e: &Expr) -> Option<(Expr, Expr, bool)> {
	let Expr::Match(m) = e else { return None; };
	let Expr::Tuple(t) = &*m.expr else { return None; };
	if t.elems.len() != 2 || m.arms.len() != 1 { return None; }
	let body = m.arms[0].to_token_stream().to_string();
	if !body.contains("assert_failed") { return None; }
	let eq = body.contains("* left_val == * right_val");
	let get = |e: &Expr| -> Option<Expr> { if let Expr::Reference(r) = e { Some(match &*r.expr { Expr::Paren(p) => (*p.expr).clone(), o => o.clone() }) } else { None } };
	Some((get(&t.elems[0])?, get(&t.elems[1])?, eq))
}

/// The expansion of assert!: if !cond { panic }
fn panics(b: &Block) -> bool {
	let s = b.to_token_stream().to_string();
	b.stmts.len() == 1 && s.contains("panicking :: panic")
}

impl VisitMut for Ctx<'_> {
	fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
	fn visit_path_mut(&mut self, p: &mut Path) {
		self.rename_path(p);
		// The model of the streams has no lifetime.
		for s in p.segments.iter_mut() { if s.ident == "VxStream" { s.arguments = PathArguments::None; } }
		visit_mut::visit_path_mut(self, p);
	}
	fn visit_type_mut(&mut self, t: &mut Type) {
		// Mutex<T> and Arc<T> erasure (sequential plans only).
		if let Type::Path(p) = t {
			let l = p.path.segments.last().unwrap();
			let l_id = l.ident.to_string();
			if (l_id == "Mutex" && (self.plan.flag("erase_mutex") || self.plan.flag("lock_mutex"))) || (l_id == "Arc" && self.plan.flag("erase_arc")) {
				if let PathArguments::AngleBracketed(a) = &l.arguments {
					if let Some(GenericArgument::Type(inner)) = a.args.first() { let i = inner.clone(); *t = i; self.visit_type_mut(t); return; }
				}
			}
			if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
				if let Some(x) = self.assoc.get(&p.path.segments[1].ident.to_string()) { *t = x.clone(); self.visit_type_mut(t); return; }
			}
		}
		if let Type::Reference(r) = t {
			if let Type::Slice(s) = &*r.elem {
				if let Type::Path(p) = &*s.elem { if p.path.segments.last().unwrap().ident == "IoSlice" && r.mutability.is_some() { *t = parse_quote!(VxParts<'_>); return; } }
			}
		}
		visit_mut::visit_type_mut(self, t);
	}
	fn visit_block_mut(&mut self, b: &mut Block) {
		let mut stmts = std::mem::take(&mut b.stmts);
		// let [a, b] = x; (of a Copy type, else the result is refused)
		stmts = stmts.into_iter().flat_map(|s| {
			if let Stmt::Local(l) = &s {
				if let (Pat::Slice(p), Some(i)) = (&l.pat, &l.init) {
					if i.diverge.is_none() && p.elems.iter().all(|e| matches!(e, Pat::Wild(_)) || matches!(e, Pat::Ident(x) if x.subpat.is_none() && x.by_ref.is_none())) {
						let (v, e, n) = (self.fresh("a"), &i.expr, p.elems.len());
						let mut r: Vec<Stmt> = vec![parse_quote!(let #v: [_; #n] = #e;)];
						for (k, x) in p.elems.iter().enumerate() { if !matches!(x, Pat::Wild(_)) { r.push(parse_quote!(let #x = #v[#k];)); } }
						return r;
					}
				}
			}
			vec![s]
		}).collect();
		// A guard that is held while the whole of `self` is used is not a borrow: its uses are uses of the place.
		if self.plan.flag("erase_mutex") || self.plan.flag("lock_mutex") {
			let mut k = 0;
			while k < stmts.len() {
				if let Stmt::Local(l) = &stmts[k] {
					if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
						if let (Some(place), None) = (is_guard(&i.expr), &p.subpat) {
							let mut u = Unguard { name: p.ident.to_string(), to: place.clone(), bad: false, held: false, used: false };
							let mut rest: Vec<Stmt> = stmts[k + 1..].to_vec();
							for s in &mut rest { u.visit_stmt_mut(s); }
							if u.held && !u.bad {
								let first: Vec<Stmt> = if self.plan.flag("lock_mutex") { vec![parse_quote!(#place.vx_lock();)] } else { vec![] };
								stmts.truncate(k);
								stmts.extend(first);
								stmts.extend(rest);
								continue;
							}
						}
					}
				}
				k += 1;
			}
		}
		let total = stmts.len();
		for (k, mut s) in stmts.into_iter().enumerate() {
			match &s {
				// Inner items are hoisted by the plan.
				Stmt::Item(_) => continue,
				Stmt::Macro(m) if m.mac.path.is_ident("__vx_mark") => { b.stmts.push(s); continue; },
				_ => {},
			}
			self.frames.push(vec![]);
			// `let x = guard;` borrows the place.
			if self.plan.flag("erase_mutex") || self.plan.flag("lock_mutex") {
				if let Stmt::Local(l) = &mut s {
					if let Some(i) = &mut l.init {
						if let Some(place) = is_guard(&i.expr) {
							*i.expr = if self.plan.flag("lock_mutex") { parse_quote!(#place.vx_lock()) } else { parse_quote!(&mut #place) };
							if let Pat::Ident(p) = &mut l.pat { p.mutability = None; }
						}
					}
				}
			}
			self.visit_stmt_mut(&mut s);
			let frame = self.frames.pop().unwrap();
			let mut pre = vec![];
			let mut post = vec![];
			for c in &frame {
				if let Some(t) = self.f.before.get(c).cloned() { self.used_anchors += 1; pre.push(self.mark(&t)); }
				if let Some(t) = self.f.after.get(c).cloned() { self.used_anchors += 1; post.push(self.mark(&t)); }
			}
			b.stmts.extend(pre);
			if !post.is_empty() && k + 1 == total {
				if let Stmt::Expr(e, None) = &s {
					if !matches!(e, Expr::While(_) | Expr::ForLoop(_)) {
						let v = self.fresh("t");
						b.stmts.push(parse_quote!(let #v = #e;));
						b.stmts.extend(post);
						b.stmts.push(Stmt::Expr(parse_quote!(#v), None));
						continue;
					}
				}
			}
			b.stmts.push(s);
			b.stmts.extend(post);
		}
	}
	fn visit_arm_mut(&mut self, a: &mut Arm) {
		let mut conds = vec![];
		self.fix_pat(&mut a.pat, &mut conds);
		visit_mut::visit_arm_mut(self, a);
		if !conds.is_empty() {
			let g: Expr = match &a.guard {
				Some((_, g)) => parse_quote!((#(#conds)&&*) && (#g)),
				None => parse_quote!(#(#conds)&&*),
			};
			a.guard = Some((Default::default(), Box::new(g)));
		}
	}
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		// Attributes on expressions and redundant groups.
		if let Expr::Group(g) = e { *e = (*g.expr).clone(); }
		if self.plan.flag("erase_mutex") {
			// *guard and guard both are the place itself.
			if let Expr::Unary(u) = e { if matches!(u.op, UnOp::Deref(_)) { if let Some(p) = is_guard(&u.expr) { *e = p; } } }
			if let Some(p) = is_guard(e) { *e = p; }
		}
		// A guard is the place, with whatever other threads left there.
		if self.plan.flag("lock_mutex") {
			if let Expr::Unary(u) = e { if matches!(u.op, UnOp::Deref(_)) { if let Some(p) = is_guard(&u.expr) { *e = parse_quote!(*#p.vx_lock()); } } }
			if let Some(p) = is_guard(e) { *e = parse_quote!((*#p.vx_lock())); }
		}
		// A list of parts to write.
		if let Some(parts) = io_slices(e) {
			let mut x: Expr = parse_quote!(VxParts::new());
			for p in parts { x = parse_quote!(#x.with(#p)); }
			*e = x;
		}
		// An element of a table.
		if let Expr::Index(i) = e {
			if let Expr::Path(p) = &*i.expr {
				if let Some(n) = p.path.get_ident() {
					if self.plan.table(&n.to_string()) {
						let (f, x) = (ident(&format!("vx_at_{n}")), &i.index);
						*e = parse_quote!(#f(#x));
					}
				}
			}
		}
		// Arc::new(x), Arc::clone(&x), Mutex::new(x)
		if let Expr::Call(c) = e {
			if let Expr::Path(p) = &*c.func {
				let n = p.path.segments.len();
				if n >= 2 && c.args.len() == 1 {
					let (t, f) = (p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.to_string());
					let on = (t == "Arc" && self.plan.flag("erase_arc")) || (t == "Mutex" && (self.plan.flag("erase_mutex") || self.plan.flag("lock_mutex")));
					if on && f == "new" { *e = c.args[0].clone(); }
					else if on && t == "Arc" && f == "clone" { let a = &c.args[0]; *e = parse_quote!(vx_share(#a)); }
				}
			}
		}
		if let Some((l, r, eq)) = assert_shape(e) {
			*e = if eq { parse_quote!(vx_assert(#l == #r)) } else { parse_quote!(vx_assert(#l != #r)) };
		}
		if let Expr::If(i) = e {
			if i.else_branch.is_none() && panics(&i.then_branch) {
				if let Expr::Unary(u) = &*i.cond {
					if matches!(u.op, UnOp::Not(_)) { let c = &u.expr; *e = parse_quote!(vx_assert(#c)); }
				}
			}
		}
		match e {
			Expr::ForLoop(l) => {
				let n = self.loops;
				let new = self.for_loop(l, n);
				let is_native = matches!(new, Expr::ForLoop(_));
				*e = new;
				if !is_native {
					// The generated loop takes number n below.
					match e {
						Expr::Block(_) | Expr::While(_) => {},
						_ => {},
					}
					self.visit_expr_mut(e);
					return;
				}
				self.loops += 1;
				visit_mut::visit_expr_mut(self, e);
				self.loop_marks(e, n);
				return;
			},
			Expr::While(_) | Expr::Loop(_) => {
				let n = self.loops;
				self.loops += 1;
				visit_mut::visit_expr_mut(self, e);
				self.loop_marks(e, n);
				return;
			},
			Expr::Macro(m) if m.mac.path.is_ident("__vx_mark") => return,
			_ => {},
		}
		// `if let PAT = e` with literal patterns.
		if let Expr::If(i) = e {
			let mut conds = vec![];
			if let Expr::Let(l) = &mut *i.cond { self.fix_pat(&mut l.pat, &mut conds); }
			if !conds.is_empty() {
				if let Expr::Let(l) = &*i.cond {
					let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
					let els: Expr = match &i.else_branch { Some((_, e)) => (**e).clone(), None => parse_quote!({}) };
					*e = parse_quote!(match #x { #p if #(#conds)&&* => #t, _ => #els });
				}
			}
		}
		// Ordinal of this call among calls of that name, in source order of the callee name.
		let mut call: Option<(String, usize)> = None;
		let mut ord = |me: &mut Self, name: String| { let n = me.calls.entry(name.clone()).or_insert(0); let k = *n; *n += 1; (name, k) };
		match e {
			Expr::MethodCall(m) => {
				let name = m.method.to_string();
				// Visit the receiver first so ordinals follow evaluation order.
				let c = { visit_recv(self, m); ord(self, name) };
				call = Some(c);
			},
			Expr::Call(c) => {
				if let Expr::Path(p) = &*c.func {
					let name = p.path.segments.last().unwrap().ident.to_string();
					call = Some(ord(self, name));
				}
			},
			Expr::Return(_) => call = Some(ord(self, "return".to_owned())),
			_ => {},
		}
		if let Some(c) = &call { if let Some(fr) = self.frames.last_mut() { fr.push(c.clone()); } }

		if let (Expr::MethodCall(m), Some((_, k))) = (&*e, &call) {
			let m = m.clone();
			if let Some(new) = self.combinator(&m, *k) {
				// The receiver has been rewritten already.
				*e = new;
				rewritten_recv(self, e);
				return;
			}
		}
		// `(a..=b).contains(&x)`, all of them simple.
		if let Expr::MethodCall(m) = &*e {
			fn simple(e: &Expr) -> bool { match e { Expr::Lit(_) | Expr::Path(_) => true, Expr::Field(f) => simple(&f.base), Expr::Paren(p) => simple(&p.expr), _ => false } }
			let mut r = &*m.receiver;
			while let Expr::Paren(p) = r { r = &p.expr; }
			if let (true, Expr::Range(r), Some(Expr::Reference(x))) = (m.method == "contains" && m.args.len() == 1, r, m.args.first()) {
				if let (Some(a), Some(b), x) = (&r.start, &r.end, &x.expr) {
					if simple(a) && simple(b) && simple(x) {
						*e = if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!((#a <= #x && #x <= #b)) } else { parse_quote!((#a <= #x && #x < #b)) };
						self.visit_expr_mut(e);
						return;
					}
				}
			}
		}
		// `a == b"lit"` compares slices.
		if let Expr::Binary(b) = e {
			let lit = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, Lit::ByteStr(_)));
			if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (lit(&b.left) || lit(&b.right)) {
				let (x, y) = (&b.left, &b.right);
				*e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vx_beq(#x, #y)) } else { parse_quote!(!vx_beq(#x, #y)) };
			}
		}
		match e {
			Expr::MethodCall(m) => {
				for a in m.args.iter_mut() { self.visit_expr_mut(a); }
				if let Some(t) = &mut m.turbofish { self.visit_angle_bracketed_generic_arguments_mut(t); }
				let name = m.method.to_string();
				let n = m.args.len();
				for x in self.extra(&name) { m.args.push(x); }
				if let Some((_, _, to)) = self.f.methods.iter().chain(self.plan.methods.iter()).find(|(a, k, _)| *a == name && k.map_or(true, |k| k == n)) { m.method = ident(to); }
			},
			Expr::Call(c) => {
				if let Expr::Path(p) = &*c.func {
					// <T as Trait>::f(..)
					if p.qself.is_some() {
						let s = crate::find::norm(p);
						if let Some(to) = self.plan.ufcs.get(&s) { *c.func = syn::parse_str(to).expect("ufcs"); }
					}
				}
				let name = if let Expr::Path(p) = &*c.func { Some(p.path.segments.last().unwrap().ident.to_string()) } else { None };
				visit_mut::visit_expr_mut(self, e);
				if let (Some(name), Expr::Call(c)) = (name, &mut *e) {
					let now = if let Expr::Path(p) = &*c.func { p.path.segments.last().map(|s| s.ident.to_string()) } else { None };
					let mut args = self.extra(&name);
					// By its new name, too.
					if let Some(now) = now { if args.is_empty() && now != name { args = self.extra(&now); } }
					for x in args { c.args.push(x); }
				}
			},
			Expr::Closure(_) => {
				let n = self.closures;
				self.closures += 1;
				visit_mut::visit_expr_mut(self, e);
				if let (Some(h), Expr::Closure(c)) = (self.f.closures.get(&n), &*e) {
					let body = &c.body;
					match h.parse::<TokenStream>() {
						Ok(h) => { self.used_anchors += 1; *e = Expr::Verbatim(quote!(#h { #body })); },
						Err(x) => self.err(format!("closure header: {x}")),
					}
				}
			},
			Expr::Index(i) => {
				let range = matches!(&*i.index, Expr::Range(_));
				visit_mut::visit_expr_mut(self, e);
				if range {
					if let Expr::Index(i) = &*e { let (a, b) = (&i.expr, &i.index); *e = parse_quote!((*#a.vx_slice(#b))); }
				}
			},
			Expr::Lit(l) => match &l.lit {
				Lit::Str(s) => { self.lits.push(s.value()); },
				Lit::ByteStr(b) => { let v = b.value(); let n = v.iter().map(|x| LitInt::new(&format!("{x}u8"), Span::call_site())); *e = parse_quote!(&[#(#n),*]); },
				Lit::Byte(b) => { let x = LitInt::new(&format!("{}u8", b.value()), Span::call_site()); *e = parse_quote!(#x); },
				_ => {},
			},
			Expr::Macro(m) => {
				let name = m.mac.path.segments.last().unwrap().ident.to_string();
				if let Some(to) = self.f.macros.get(&name) { *e = syn::parse_str(to).expect("macro"); }
				else if name == "format_args" {
					if let Some(x) = fmt_chain(&m.mac.tokens) { *e = x; self.visit_expr_mut(e); }
				}
			},
			_ => visit_mut::visit_expr_mut(self, e),
		}
	}
}

fn visit_recv(me: &mut Ctx<'_>, m: &mut ExprMethodCall) { me.visit_expr_mut(&mut m.receiver); }

/// After a combinator became a match whose scrutinee is already rewritten, visit the rest.
fn rewritten_recv(me: &mut Ctx<'_>, e: &mut Expr) {
	match e {
		Expr::Match(m) => for a in m.arms.iter_mut() { me.visit_arm_mut(a); },
		Expr::If(i) => { me.visit_block_mut(&mut i.then_branch); if let Some((_, e)) = &mut i.else_branch { me.visit_expr_mut(e); } },
		Expr::Block(b) => {
			// { let r = recv; ... }: all but the first statement.
			let first = b.block.stmts.remove(0);
			me.visit_block_mut(&mut b.block);
			b.block.stmts.insert(0, first);
		},
		_ => {},
	}
}

impl Ctx<'_> {
	fn loop_marks(&mut self, e: &mut Expr, n: usize) {
		let inv = self.f.loops.get(&n).cloned();
		let lb = self.f.loopbegin.get(&n).cloned();
		let le = self.f.loopend.get(&n).cloned();
		let al = self.f.afterloop.get(&n).cloned();
		let body = match e { Expr::While(w) => &mut w.body, Expr::Loop(l) => &mut l.body, Expr::ForLoop(l) => &mut l.body, _ => return };
		let mut stmts = vec![];
		if let Some(t) = inv { self.used_anchors += 1; self.marks.push(format!("\u{1}{t}")); stmts.push(mark_stmt(self.marks.len() - 1)); }
		if let Some(t) = lb { self.used_anchors += 1; stmts.push(self.mark(&t)); }
		stmts.extend(std::mem::take(&mut body.stmts));
		if let Some(t) = le {
			self.used_anchors += 1;
			// A tail expression becomes a statement (its type is ()).
			if let Some(Stmt::Expr(_, semi)) = stmts.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
			stmts.push(self.mark(&t));
		}
		let body = match e { Expr::While(w) => &mut w.body, Expr::Loop(l) => &mut l.body, Expr::ForLoop(l) => &mut l.body, _ => return };
		body.stmts = stmts;
		if let Some(t) = al {
			self.used_anchors += 1;
			let m = self.mark(&t);
			let x = e.clone();
			*e = parse_quote!({ #x #m });
		}
	}
	pub fn anchors_wanted(&self) -> usize {
		let f = self.f;
		f.loops.len() + f.loopbegin.len() + f.loopend.len() + f.afterloop.len() + f.closures.len() + f.before.len() + f.after.len()
	}
}
