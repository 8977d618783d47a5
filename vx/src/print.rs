//! Writing the verifier's input.
use crate::desugar::{mark_stmt, Ctx};
use crate::find;
use crate::plan::{Entry, FnPlan, Plan};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Out { pub text: String, pub map: String }

pub fn pretty(ts: TokenStream) -> String {
	fn go(ts: TokenStream, out: &mut String) {
		let mut prev_joint = false;
		for t in ts {
			match t {
				TokenTree::Group(g) => {
					let (a, b) = match g.delimiter() { Delimiter::Brace => (" {\n", "\n}\n"), Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
					out.push_str(a); go(g.stream(), out); out.push_str(b);
					prev_joint = false;
				},
				TokenTree::Punct(p) => {
					if !prev_joint { out.push(' '); }
					out.push(p.as_char());
					prev_joint = p.spacing() == proc_macro2::Spacing::Joint;
					if p.as_char() == ';' { out.push('\n'); }
				},
				t => { if !prev_joint { out.push(' '); } out.push_str(&t.to_string()); prev_joint = false; },
			}
		}
	}
	let mut s = String::new();
	go(ts, &mut s);
	s.replace("__vx_mark !(", "__vx_mark!(")
}

fn put_marks(mut s: String, marks: &[String]) -> String {
	for (n, m) in marks.iter().enumerate() {
		let pats = [format!("__vx_mark!( {n}) ;"), format!("__vx_mark!({n}) ;"), format!("__vx_mark! ( {n} ) ;")];
		let mut done = false;
		for p in &pats {
			if let Some(at) = s.find(p.as_str()) {
				if let Some(inv) = m.strip_prefix('\u{1}') {
					// Move in front of the opening brace.
					let brace = s[..at].rfind('{').expect("loop body");
					let after = s[at + p.len()..].to_owned();
					let head = s[..brace].to_owned();
					s = format!("{head}\n{inv}\n{{{after}");
				}
				else { s = format!("{}\n{m}\n{}", &s[..at], &s[at + p.len()..]); }
				done = true;
				break;
			}
		}
		if !done { eprintln!("vx: mark {n} not found in\n{s}"); std::process::exit(4); }
	}
	s
}

type Names = std::collections::BTreeMap<String, (Vec<String>, Vec<String>)>;

/// Replace whole words.
fn words(text: &str, map: &[(String, String)]) -> String {
	let mut out = String::new();
	let mut word = String::new();
	let mut dot = false;
	let mut flush = |w: &mut String, out: &mut String, dot: bool| {
		match map.iter().find(|(o, _)| o == w) { Some((_, n)) if !dot => out.push_str(n), _ => out.push_str(w) }
		w.clear();
	};
	let mut prev = ' ';
	for c in text.chars() {
		if c.is_alphanumeric() || c == '_' {
			// A field or method name is no local.
			if word.is_empty() { dot = prev == '.'; }
			word.push(c);
		} else {
			flush(&mut word, &mut out, dot);
			out.push(c);
		}
		prev = c;
	}
	flush(&mut word, &mut out, dot);
	out
}

/// The contract with parameters and locals renamed as in the current source.
fn renamed(f: &FnPlan, src: &find::Func, names: &Names) -> FnPlan {
	let mut f = f.clone();
	let Some((args, locals)) = names.get(f.key.split('#').next().unwrap().trim()) else { return f; };
	let (na, nl) = crate::inline::names(src);
	let mut map: Vec<(String, String)> = Vec::new();
	let mut bad = false;
	let mut add = |o: &String, n: &String| { if let Some((_, x)) = map.iter().find(|(a, _)| a == o) { if x != n { bad = true; } } else { map.push((o.clone(), n.clone())); } };
	if args.len() == na.len() { for (o, n) in args.iter().zip(&na) { add(o, n); } }
	if locals.len() == nl.len() { for (o, n) in locals.iter().zip(&nl) { add(o, n); } }
	map.retain(|(a, b)| a != b);
	if bad || map.is_empty() { return f; }
	let r = |s: &mut String| { *s = words(s, &map); };
	r(&mut f.sig); r(&mut f.params); r(&mut f.begin); r(&mut f.end);
	for m in [&mut f.loops, &mut f.loopbegin, &mut f.loopend, &mut f.afterloop, &mut f.closures] { for s in m.values_mut() { r(s); } }
	for m in [&mut f.before, &mut f.after] { for s in m.values_mut() { r(s); } }
	for m in [&mut f.callargs, &mut f.macros, &mut f.hold] { for s in m.values_mut() { r(s); } }
	f
}

pub fn generate(file: &File, plan: &Plan, trust: &[String], drop: &[String], names: &Names) -> Out {
	let planned: std::collections::BTreeSet<String> = plan.entries.iter().filter_map(|e| if let Entry::Fn(f) = e { Some(f.key.split('#').next().unwrap().trim().to_owned()) } else { None }).chain(plan.noinline.iter().cloned()).collect();
	let mut consts: Vec<String> = Vec::new();
	let funcs = find::index(file);
	let mut text = String::new();
	let mut map = String::new();
	text.push_str("#![allow(non_snake_case, unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_assignments, unreachable_patterns, non_camel_case_types, mismatched_lifetime_syntaxes)]\nuse vstd::prelude::*;\nverus! {\n");
	let mut failed: Vec<(String, String)> = Vec::new();
	let empty = FnPlan::default();
	for e in &plan.entries {
		match e {
			Entry::Raw(s) => { text.push_str(s); text.push('\n'); },
			Entry::Item { kind, name, opts } => {
				let found = find::item(&file.items, kind, name);
				if found.len() != 1 { failed.push((format!("{kind} {name}"), format!("{} definitions found", found.len()))); continue; }
				let mut it = found[0].clone();
				strip_item(&mut it, plan, &empty);
				if let (Item::Static(s), Some(ens)) = (&it, opts.strip_prefix("exec")) {
					text.push_str(&format!("pub exec static {}: {} {ens} {{ {} }}\n", s.ident, pretty(s.ty.to_token_stream()), pretty(s.expr.to_token_stream())));
					continue;
				}
				text.push_str(opts); text.push('\n');
				text.push_str(&pretty(it.to_token_stream())); text.push('\n');
			},
			Entry::Table { name, ty, ens, proof, props } => {
				let start = text.lines().count() + 1;
				let Some(mut it) = const_item(file, &funcs, name) else { failed.push((format!("table {name}"), "not found".into())); continue; };
				strip_item(&mut it, plan, &empty);
				let expr = if let Item::Const(c) = &it { match &*c.expr { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() } } else { continue };
				let Expr::Array(a) = expr else { failed.push((format!("table {name}"), "no array".into())); continue; };
				for (k, x) in a.elems.iter().enumerate() {
					let i = k.to_string();
					text.push_str(&format!("pub fn vx_at_{name}_{k}() -> (r: {ty}) ensures {} {{ let r: {ty} = {}; proof {{ {} }} r }}\n", ens.replace("{i}", &i), pretty(x.to_token_stream()).trim(), proof.replace("{i}", &i)));
				}
				fn tree(n: &str, a: usize, b: usize) -> String { if b - a == 1 { format!("vx_at_{n}_{a}()") } else { let m = (a + b) / 2; format!("if i < {m} {{ {} }} else {{ {} }}", tree(n, a, m), tree(n, m, b)) } }
				text.push_str(&format!("pub fn vx_at_{name}(i: usize) -> (r: {ty}) requires i < {} ensures {} {{ {} }}\n", a.elems.len(), ens.replace("{i}", "i as int"), tree(name, 0, a.elems.len())));
				let end = text.lines().count();
				map.push_str(&format!("fn\ttable {name}\tvx_at_{name}\t{start}\t{end}\t{props}\t\n"));
			},
			Entry::Assoc { ty, name, opts } => {
				let Some(mut c) = find::assoc_const(&file.items, ty, name) else { failed.push((format!("const {ty}::{name}"), "not found".into())); continue; };
				c.attrs.clear(); c.vis = Visibility::Public(Default::default());
				let mut cx = Ctx::new(plan, &empty);
				cx.visit_type_mut(&mut c.ty); cx.visit_expr_mut(&mut c.expr);
				if let Type::Reference(r) = &mut c.ty { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } }
				let t = pretty(c.ty.to_token_stream());
				let x = pretty(c.expr.to_token_stream());
				let rev: String = cx.lits.iter().map(|l| format!("reveal_strlit({}); ", Lit::new(proc_macro2::Literal::string(l)).to_token_stream())).collect();
				let rev = if rev.is_empty() { rev } else { format!("proof {{ {rev} }}") };
				match opts.strip_prefix("exec") {
					Some(ens) => text.push_str(&format!("impl {ty} {{ pub exec const {name}: {t} {ens} {{ {rev} {x} }} }}\n")),
					None => text.push_str(&format!("impl {ty} {{ pub const {name}: {t} = {x}; }}\n")),
				}
			},
			Entry::Inner { func, name, opts } => {
				let hits: Vec<_> = funcs.iter().filter(|f| f.key == *func).collect();
				let it = if hits.len() == 1 { find::inner_item(&hits[0].block, name) } else { None };
				let Some(mut it) = it else { failed.push((format!("inner {func}::{name}"), "not found".into())); continue; };
				strip_item(&mut it, plan, &empty);
				text.push_str(opts); text.push('\n');
				text.push_str(&pretty(it.to_token_stream())); text.push('\n');
			},
			Entry::Fn(f) => {
				let start = text.lines().count() + 1;
				if drop.contains(&f.key) { continue; }
				match function(file, &funcs, plan, f, trust.iter().any(|t| *t == f.key), &planned, names, &mut consts) {
					Ok((s, name, inlined)) => {
						for i in inlined { map.push_str(&format!("inlined\t{}\t{i}\n", f.key)); }
						text.push_str(&s);
						let end = text.lines().count();
						map.push_str(&format!("fn\t{}\t{}\t{start}\t{end}\t{}\t{}\n", f.key, name, f.props.join(","), if f.trusted { "trusted" } else { "" }));
					},
					Err(m) if f.optional && m.starts_with("0 def") => {},
					Err(m) => failed.push((f.key.clone(), m)),
				}
			},
		}
	}
	// Constants that no contract mentions.
	for e in &plan.entries { match e { Entry::Item { name, .. } | Entry::Inner { name, .. } | Entry::Table { name, .. } => consts.retain(|c| c != name), _ => {} } }
	for c in &consts {
		if text.contains(&format!("const {c} ")) || text.contains(&format!("const {c}:")) { continue; }
		let Some(mut found) = const_item(file, &funcs, c) else { continue; };
		strip_item(&mut found, plan, &empty);
		if let Some(t) = exec_const(&found) { text.push_str(&t); continue; }
		text.push_str(&pretty(found.to_token_stream())); text.push('\n');
	}
	if !plan.broadcast.is_empty() { text.push_str(&format!("broadcast use {{{}}};\n", plan.broadcast.join(", "))); }
	text.push_str("\n} // verus!\nfn main() {}\n");
	for (k, m) in failed { map.push_str(&format!("lost\t{k}\t{}\n", m.replace(['\n', '\t'], " "))); }
	Out { text, map }
}

/// A constant reference to an array, with its value as contract.
fn exec_const(it: &Item) -> Option<String> {
	let Item::Const(c) = it else { return None; };
	let Expr::Reference(r) = &*c.expr else { return None; };
	let Expr::Array(a) = &*r.expr else { return None; };
	if !a.elems.iter().all(|e| matches!(e, Expr::Lit(_))) { return None; }
	let (n, t, x) = (&c.ident, pretty(c.ty.to_token_stream()), pretty(c.expr.to_token_stream()));
	let seq = pretty(a.elems.to_token_stream());
	Some(format!("pub exec const {n}: {} ensures {n}@ =~= seq![{}] {{ {} }}\n", t.trim(), seq.trim(), x.trim()))
}

fn strip_item(it: &mut Item, plan: &Plan, f: &FnPlan) {
	let mut cx = Ctx::new(plan, f);
	match it {
		Item::Struct(s) => { s.attrs.clear(); s.vis = Visibility::Public(Default::default()); for fl in s.fields.iter_mut() { fl.attrs.clear(); fl.vis = Visibility::Public(Default::default()); cx.visit_type_mut(&mut fl.ty); } },
		Item::Enum(s) => {
			s.attrs.clear(); s.vis = Visibility::Public(Default::default());
			for v in s.variants.iter_mut() { v.attrs.clear(); for fl in v.fields.iter_mut() { fl.attrs.clear(); cx.visit_type_mut(&mut fl.ty); } }
		},
		Item::Const(c) => { c.attrs.clear(); c.vis = Visibility::Public(Default::default()); cx.visit_type_mut(&mut c.ty); cx.visit_expr_mut(&mut c.expr); },
		Item::Static(c) => { c.attrs.clear(); c.vis = Visibility::Public(Default::default()); cx.visit_type_mut(&mut c.ty); cx.visit_expr_mut(&mut c.expr); },
		_ => {},
	}
}

/// `requires` must be kept and `ensures` replaced for the vacuity copy.
fn vacuous(sig: &str) -> String {
	let mut out = String::new();
	let mut skipping = false;
	for l in sig.lines() {
		let t = l.trim_start();
		if t.starts_with("ensures") { skipping = true; }
		if t.starts_with("requires") || t.starts_with("decreases") || t.starts_with("opens_invariants") || t.starts_with("no_unwind") { skipping = false; }
		if !skipping { out.push_str(l); out.push('\n'); }
	}
	// decreases comes last.
	let (mut a, mut d) = (String::new(), String::new());
	let mut dec = false;
	for l in out.lines() { if l.trim_start().starts_with("decreases") { dec = true; } if dec { d.push_str(l); d.push('\n'); } else { a.push_str(l); a.push('\n'); } }
	format!("{a}ensures false,\n{d}")
}

fn function(file: &File, funcs: &[find::Func], plan: &Plan, f: &FnPlan, trust: bool, planned: &std::collections::BTreeSet<String>, names: &Names, consts: &mut Vec<String>) -> std::result::Result<(String, String, Vec<String>), String> {
	let key = f.key.split('#').next().unwrap().trim();
	let hits: Vec<_> = funcs.iter().filter(|x| x.key == key).collect();
	if hits.len() != 1 { return Err(format!("{} definitions found", hits.len())); }
	let mut src = hits[0].clone();
	let f = &renamed(f, &src, names);
	if let Some(n) = f.closurebody { closure_body(&mut src, n)?; }
	if !f.hold.is_empty() { hold(&mut src, f)?; }
	if f.free { free_receiver(&mut src)?; }
	let mut inl = crate::inline::Inline { funcs, planned, self_ty: src.imp.as_ref().map(|i| find::short_ty(&i.self_ty)), key: key.to_owned(), depth: 0, tail: false, fresh: 0, done: vec![] };
	inl.block(&mut src.block, true);
	let inlined = std::mem::take(&mut inl.done);
	if plan.flag("guard_mutex") { crate::guard::run(&mut src.block); }
	let mut used = vec![];
	consts_in(&src.block, &mut used);
	used.retain(|c| !plan.paths.contains_key(c));
	let mut clits = vec![];
	for c in &used {
		if let Some(i) = const_item(file, funcs, c) { let mut x = i.clone(); let mut cx = Ctx::new(plan, f); match &mut x { Item::Const(c) => cx.visit_expr_mut(&mut c.expr), Item::Static(c) => cx.visit_expr_mut(&mut c.expr), _ => {} } clits.extend(cx.lits); }
		if !consts.contains(c) { consts.push(c.clone()); }
	}
	let mut cx = Ctx::new(plan, f);
	if let Some(i) = &src.imp {
		for x in &i.items { if let ImplItem::Type(t) = x { cx.assoc.insert(t.ident.to_string(), t.ty.clone()); } }
	}
	let mut sig = src.sig.clone();
	let mut block = src.block.clone();
	// A tail `loop` that breaks with a value returns it.
	if let Some(Stmt::Expr(Expr::Loop(l), None)) = block.stmts.last_mut() {
		struct B;
		impl VisitMut for B {
			fn visit_expr_mut(&mut self, e: &mut Expr) {
				match e {
					Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => return,
					Expr::Break(b) if b.label.is_none() => if let Some(x) = b.expr.take() { *e = parse_quote!(return #x); },
					_ => {},
				}
				syn::visit_mut::visit_expr_mut(self, e);
			}
		}
		B.visit_block_mut(&mut l.body);
	}
	let mutval = matches!(sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none() && (r.mutability.is_some() || f.mutself));
	if mutval {
		// `mut self`: a variable of its own.
		struct V;
		impl VisitMut for V {
			fn visit_path_mut(&mut self, p: &mut Path) {
				if p.is_ident("self") { *p = parse_quote!(vx_self); return; }
				syn::visit_mut::visit_path_mut(self, p);
			}
		}
		V.visit_block_mut(&mut block);
		block.stmts.insert(0, parse_quote!(let mut vx_self = self;));
	}
	for a in sig.inputs.iter_mut() {
		match a {
			FnArg::Receiver(r) if mutval => { r.attrs.clear(); r.mutability = None; },
			FnArg::Receiver(r) => { r.attrs.clear(); if f.mutself && r.reference.is_some() { *r = syn::parse_quote!(&mut self); } },
			FnArg::Typed(t) => { t.attrs.clear(); cx.visit_type_mut(&mut t.ty); },
		}
	}
	let mut generics = sig.generics.clone();
	cx.visit_generics_mut(&mut generics);
	let mut ret = match &sig.output { ReturnType::Type(_, t) => Some((**t).clone()), ReturnType::Default => None };
	if let Some(t) = &mut ret { cx.visit_type_mut(t); }
	cx.visit_block_mut(&mut block);
	if !cx.errors.is_empty() { return Err(cx.errors.join("; ")); }
	let lost = cx.used_anchors < cx.anchors_wanted();
	let trust = trust || f.trusted;
	if lost && !trust { return Err(format!("lost anchor: {} of {} found", cx.used_anchors, cx.anchors_wanted())); }

	// Literals.
	let mut lits: Vec<String> = cx.lits.clone();
	lits.extend(clits);
	lits.sort(); lits.dedup();
	let mut begin = String::new();
	if !lits.is_empty() {
		begin.push_str("proof {\n");
		for l in &lits { begin.push_str(&format!("reveal_strlit({});\n", Lit::new(proc_macro2::Literal::string(l)).to_token_stream())); }
		begin.push_str("}\n");
	}
	begin.push_str(&f.begin);
	let mut marks = cx.marks.clone();
	marks.push(begin);
	block.stmts.insert(0, mark_stmt(marks.len() - 1));
	if !f.end.is_empty() {
		marks.push(f.end.clone());
		let m = mark_stmt(marks.len() - 1);
		match block.stmts.last().cloned() {
			Some(Stmt::Expr(e, None)) if ret.is_some() => {
				block.stmts.pop();
				block.stmts.push(parse_quote!(let vx_ret = #e;));
				block.stmts.push(m);
				block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
			},
			Some(Stmt::Expr(e, None)) => { block.stmts.pop(); block.stmts.push(Stmt::Expr(e, Some(Default::default()))); block.stmts.push(m); },
			_ => block.stmts.push(m),
		}
	}

	let name = f.name.clone().unwrap_or_else(|| sig.ident.to_string());
	let mut inputs: Vec<String> = Vec::new();
	for a in &sig.inputs {
		match a {
			FnArg::Receiver(_) if f.free => return Err("free function with receiver".into()),
			a => inputs.push(pretty(a.to_token_stream())),
		}
	}
	if !f.params.is_empty() { inputs.push(f.params.clone()); }
	let gen = pretty(generics.to_token_stream());
	let wh = generics.where_clause.as_ref().map(|w| pretty(w.to_token_stream())).unwrap_or_default();
	let rt = match (&f.rettype, &ret) { (Some(t), _) => Some(t.clone()), (None, Some(t)) => Some(pretty(t.to_token_stream())), _ => None };
	let ret_s = match (&rt, &f.ret) {
		(Some(t), Some(r)) => format!("-> ({r}: {t})"),
		(Some(t), None) => format!("-> {t}"),
		(None, _) => String::new(),
	};
	// Impl header.
	let (open, close) = if f.free || f.bare { (String::new(), "") } else {
		match (&f.imp, &src.imp) {
			(Some(h), _) => (format!("{h} {{"), "}"),
			(None, Some(i)) => {
				let mut g = i.generics.clone();
				cx.visit_generics_mut(&mut g);
				let mut t = (*i.self_ty).clone();
				cx.visit_type_mut(&mut t);
				let w = g.where_clause.as_ref().map(|w| pretty(w.to_token_stream())).unwrap_or_default();
				(format!("impl {} {} {w} {{", pretty(g.to_token_stream()), pretty(t.to_token_stream())), "}")
			},
			(None, None) => (String::new(), ""),
		}
	};
	let body = put_marks(pretty(block.to_token_stream()), &marks);
	let body = if trust { "{ unimplemented!() }".to_owned() } else { body };
	let mut attrs = f.attrs.clone();
	let isolated = f.loops.values().any(|l| l.contains("ensures") || l.contains("invariant_except_break"));
	if !block_is_loopless(&block) && !isolated { attrs.push_str("\n#[verifier::loop_isolation(false)]"); }
	if trust { attrs.push_str("\n#[verifier::external_body]"); }
	let make = |name: &str, sig: &str, attrs: &str| format!("{open}\n{attrs}\n{} fn {name} {gen}({}) {ret_s}\n{wh}\n{sig}\n{body}\n{close}\n", if f.bare { "" } else { "pub" }, inputs.join(", "));
	let mut s = make(&name, &f.sig, &attrs);
	if !trust && plan.flag("vacuity") && !f.attrs.contains("no_vac") && !f.bare && f.imp.as_ref().map_or(true, |i| !i.contains(" for ")) {
		s.push_str(&make(&format!("vx_vac_{name}"), &vacuous(&f.sig), &attrs));
	}
	Ok((s, name, inlined))
}

/// What the n-th closure of a function does when called, after what precedes it.
fn closure_body(src: &mut find::Func, n: usize) -> std::result::Result<(), String> {
	struct C { at: usize, n: usize, found: Option<ExprClosure> }
	impl<'x> syn::visit::Visit<'x> for C {
		fn visit_expr_closure(&mut self, c: &'x ExprClosure) {
			if self.at == self.n { self.found = Some(c.clone()); }
			self.at += 1;
			syn::visit::visit_expr_closure(self, c);
		}
	}
	let mut c = C { at: 0, n, found: None };
	syn::visit::Visit::visit_block(&mut c, &src.block);
	let Some(c) = c.found else { return Err("closure not found".into()); };
	if !c.inputs.is_empty() { return Err("closure with parameters".into()); }
	src.sig.output = ReturnType::Default;
	let body = match *c.body { Expr::Block(b) => b.block, x => parse_quote!({ #x; }) };
	// `stmts; spawn(move || body)`: what comes before is done, too.
	let mut stmts: Vec<Stmt> = Vec::new();
	if let Some(Stmt::Expr(Expr::Call(k), None)) = src.block.stmts.last() {
		if k.args.iter().any(|a| matches!(a, Expr::Closure(_))) { stmts = src.block.stmts[..src.block.stmts.len() - 1].to_vec(); }
	}
	stmts.extend(body.stmts);
	src.block.stmts = stmts;
	Ok(())
}

/// Replaces the only closure of the function, an argument of a planned call.
fn hold(src: &mut find::Func, f: &FnPlan) -> std::result::Result<(), String> {
	struct C { n: usize }
	impl<'x> syn::visit::Visit<'x> for C {
		fn visit_expr_closure(&mut self, c: &'x ExprClosure) { self.n += 1; syn::visit::visit_expr_closure(self, c); }
	}
	let mut c = C { n: 0 };
	syn::visit::Visit::visit_block(&mut c, &src.block);
	if c.n != 1 { return Err(format!("{} closures", c.n)); }
	struct H<'a> { f: &'a FnPlan, n: usize }
	impl VisitMut for H<'_> {
		fn visit_expr_call_mut(&mut self, k: &mut ExprCall) {
			if let Expr::Path(p) = &*k.func {
				if let Some(x) = self.f.hold.get(&p.path.segments.last().unwrap().ident.to_string()) {
					for a in k.args.iter_mut() { if matches!(a, Expr::Closure(_)) { *a = syn::parse_str(x).expect("hold"); self.n += 1; } }
				}
			}
			syn::visit_mut::visit_expr_call_mut(self, k);
		}
	}
	let mut h = H { f, n: 0 };
	h.visit_block_mut(&mut src.block);
	if h.n != 1 { return Err("the closure is no argument of the call".into()); }
	Ok(())
}

/// A constant (or immutable static, which is one here), anywhere; none if ambiguous.
fn const_item(file: &File, funcs: &[find::Func], c: &str) -> Option<Item> {
	let mut found: Vec<Item> = find::item(&file.items, "const", c).into_iter().chain(find::item(&file.items, "static", c)).cloned().collect();
	if found.is_empty() { for f in funcs { if let Some(i) = find::inner_item(&f.block, c) { if !found.iter().any(|x| x.to_token_stream().to_string() == i.to_token_stream().to_string()) { found.push(i); } } } }
	if found.len() != 1 { return None; }
	let mut i = found.remove(0);
	if let Item::Static(s) = &i {
		if !matches!(s.mutability, StaticMutability::None) { return None; }
		let (n, t, e) = (&s.ident, &s.ty, &s.expr);
		i = parse_quote!(const #n: #t = #e;);
	}
	if let Item::Const(c) = &mut i {
		if let Type::Reference(r) = &mut *c.ty { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } }
	}
	Some(i)
}

/// A method as a free function: `self` becomes the first parameter.
fn free_receiver(src: &mut find::Func) -> std::result::Result<(), String> {
	let Some(i) = &src.imp else { return Ok(()); };
	let ty = (*i.self_ty).clone();
	struct V { ty: Type, bad: bool }
	impl VisitMut for V {
		fn visit_path_mut(&mut self, p: &mut Path) {
			if p.is_ident("self") { *p = parse_quote!(vx_self); return; }
			if p.segments[0].ident == "Self" && p.segments.len() > 1 {
				if let Type::Path(t) = &self.ty { let mut segs: Vec<PathSegment> = t.path.segments.iter().cloned().collect(); segs.extend(p.segments.iter().skip(1).cloned()); p.segments = segs.into_iter().collect(); } else { self.bad = true; }
			}
			else if p.is_ident("Self") { if let Type::Path(t) = &self.ty { *p = t.path.clone(); } else { self.bad = true; } }
			syn::visit_mut::visit_path_mut(self, p);
		}
		fn visit_type_mut(&mut self, t: &mut Type) {
			if let Type::Path(p) = t { if p.path.is_ident("Self") { *t = self.ty.clone(); return; } }
			syn::visit_mut::visit_type_mut(self, t);
		}
	}
	let mut v = V { ty: ty.clone(), bad: false };
	for a in src.sig.inputs.iter_mut() {
		match a {
			FnArg::Receiver(r) => {
				let m = r.mutability;
				let life = r.reference.as_ref().and_then(|x| x.1.clone());
				*a = if r.reference.is_some() { parse_quote!(vx_self: & #life #m #ty) } else { parse_quote!(#m vx_self: #ty) };
			},
			FnArg::Typed(t) => v.visit_type_mut(&mut t.ty),
		}
	}
	if let ReturnType::Type(_, t) = &mut src.sig.output { v.visit_type_mut(t); }
	v.visit_block_mut(&mut src.block);
	for p in i.generics.params.iter() { src.sig.generics.params.push(p.clone()); }
	if v.bad { return Err("free function: Self cannot be replaced".into()); }
	Ok(())
}

/// Names of constants in a body.
fn consts_in(b: &Block, out: &mut Vec<String>) {
	struct V<'a>(&'a mut Vec<String>);
	impl<'x> syn::visit::Visit<'x> for V<'_> {
		fn visit_path(&mut self, p: &'x Path) {
			if p.segments.len() == 1 {
				let n = p.segments[0].ident.to_string();
				if n.len() > 1 && n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) && !self.0.contains(&n) { self.0.push(n); }
			}
			syn::visit::visit_path(self, p);
		}
	}
	syn::visit::Visit::visit_block(&mut V(out), b);
}

fn block_is_loopless(b: &Block) -> bool {
	struct V(bool);
	impl<'x> syn::visit::Visit<'x> for V {
		fn visit_expr_while(&mut self, _: &'x ExprWhile) { self.0 = true; }
		fn visit_expr_loop(&mut self, _: &'x ExprLoop) { self.0 = true; }
		fn visit_expr_for_loop(&mut self, _: &'x ExprForLoop) { self.0 = true; }
	}
	let mut v = V(false);
	syn::visit::Visit::visit_block(&mut v, b);
	!v.0
}
