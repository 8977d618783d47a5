//! `macro_rules!` definitions as functions from tokens to text.
//!
//! An arm's pattern becomes a condition on the tokens, its body the text it stands for
//! (a string literal, `concat!` of such, or another macro given tokens). `None`: no
//! arm takes these tokens, or the nesting is deeper than `n` (the recursion limit).
use crate::plan::{Entry, Plan};
use crate::print::Out;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::{File, Item};

type Res<T> = Result<T, String>;
type Bind = BTreeMap<String, (bool, String)>;

/// Words get numbers: decimal literals their own, those of the plan from 1000 on, then the others.
struct Words(Vec<String>);
impl Words {
	fn id(&self, w: &str) -> String {
		if w.parse::<u32>().is_ok_and(|n| n.to_string() == w) { return format!("{w}int"); }
		format!("{}int", 1000 + self.0.iter().position(|x| x == w).expect("word"))
	}
}

enum Pat { Word(String), Punct(char), Group(Delimiter, Vec<Pat>), Frag(String, String), Rep { inner: Vec<Pat>, sep: Option<char>, op: char } }

fn pattern(ts: TokenStream) -> Res<Vec<Pat>> {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut r = Vec::new();
	let mut i = 0;
	while i < v.len() {
		match &v[i] {
			TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1) {
				Some(TokenTree::Ident(n)) => match (v.get(i + 2), v.get(i + 3)) {
					(Some(TokenTree::Punct(c)), Some(TokenTree::Ident(k))) if c.as_char() == ':' => { r.push(Pat::Frag(n.to_string(), k.to_string())); i += 4; continue; },
					_ => return Err("fragment without a kind".to_owned()),
				},
				Some(TokenTree::Group(g)) => {
					let (sep, op, used) = rep_op(&v[i + 2..])?;
					r.push(Pat::Rep { inner: pattern(g.stream())?, sep, op });
					i += 2 + used;
					continue;
				},
				_ => return Err("a lone $".to_owned()),
			},
			TokenTree::Punct(p) => r.push(Pat::Punct(p.as_char())),
			TokenTree::Ident(n) => r.push(Pat::Word(n.to_string())),
			TokenTree::Literal(l) => {
				let t = l.to_string();
				if t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { r.push(Pat::Word(t)); } else { return Err("a literal in a pattern".to_owned()); }
			},
			TokenTree::Group(g) => r.push(Pat::Group(g.delimiter(), pattern(g.stream())?)),
		}
		i += 1;
	}
	Ok(r)
}

/// Separator and operator after `$(...)`, and the number of tokens they take.
fn rep_op(v: &[TokenTree]) -> Res<(Option<char>, char, usize)> {
	let p = |t: Option<&TokenTree>| if let Some(TokenTree::Punct(p)) = t { Some(p.as_char()) } else { None };
	match (p(v.first()), p(v.get(1))) {
		(Some(o @ ('+' | '*' | '?')), _) => Ok((None, o, 1)),
		(Some(s), Some(o @ ('+' | '*'))) => Ok((Some(s), o, 2)),
		_ => Err("an unusual repetition".to_owned()),
	}
}
fn kind_of(d: Delimiter) -> u8 { match d { Delimiter::Parenthesis => 0, Delimiter::Bracket => 1, Delimiter::Brace => 2, Delimiter::None => 3 } }

/// The condition for these patterns to take all of `base`; whether an expression is among them.
fn cond(p: &[Pat], base: &str, out: &mut Vec<String>, b: &mut Bind, expr: &mut bool, words: &Words) -> Res<()> {
	let mut k = 0;
	let mut it = p.iter().peekable();
	let mut rest = Vec::new();
	while let Some(x) = it.next() {
		match x {
			Pat::Word(w) => rest.push(format!("{base}[{k}] == Tok::W({})", words.id(w))),
			Pat::Punct(c) => rest.push(format!("{base}[{k}] == Tok::P({}int)", *c as u32)),
			Pat::Frag(n, f) => {
				let e = format!("{base}[{k}]");
				frag(f, &e, &mut rest, expr)?;
				b.insert(n.clone(), (false, e));
			},
			Pat::Group(d, g) => {
				rest.push(format!("{base}[{k}] is G && {base}[{k}]->G_0 == {}int", kind_of(*d)));
				cond(g, &format!("({base}[{k}]->G_1)"), &mut rest, b, expr, words)?;
			},
			Pat::Rep { inner, sep, op } => {
				// It has to be the last one, a separator that may trail aside.
				let trail = match it.next() {
					None => false,
					Some(Pat::Rep { inner: i2, sep: None, op: '?' }) if sep.is_some() && matches!(i2.as_slice(), [Pat::Punct(c)] if Some(*c) == *sep) && it.peek().is_none() => true,
					_ => return Err("a repetition in the middle".to_owned()),
				};
				let tail = if k == 0 { base.to_owned() } else { format!("{base}.skip({k})") };
				let ([Pat::Frag(n, f)], '+' | '*') = (inner.as_slice(), *op) else { return Err("an unusual repetition".to_owned()) };
				let empty = if *op == '*' { format!("{tail}.len() == 0 || ") } else { String::new() };
				let items = match sep {
					None => { if *op == '+' { rest.push(format!("{tail}.len() >= 1")); } tail.clone() },
					Some(c) => { rest.push(format!("({empty}listed({tail}, Tok::P({}int), {trail}))", *c as u32)); format!("items({tail})") },
				};
				match f.as_str() { "tt" => {}, "expr" => { *expr = true; rest.push(format!("exprs({items})")); }, _ => return Err(format!("a repeated fragment of kind {f}")) }
				b.insert(n.clone(), (true, items));
				out.push(format!("{base}.len() >= {k}"));
				out.extend(rest);
				return Ok(());
			},
		}
		k += 1;
	}
	out.push(format!("{base}.len() == {k}"));
	out.extend(rest);
	Ok(())
}
fn frag(f: &str, e: &str, out: &mut Vec<String>, expr: &mut bool) -> Res<()> {
	match f {
		"tt" => {},
		"expr" => { *expr = true; out.push(format!("{e} is E")); },
		"ident" => out.push(format!("{e} is W && {e}->W_0 >= 1000")),
		_ => return Err(format!("a fragment of kind {f}")),
	}
	Ok(())
}

/// What a body gives another macro.
fn template(v: &[TokenTree], b: &Bind, words: &Words) -> Res<String> {
	let mut r: Vec<String> = Vec::new();
	let mut i = 0;
	while i < v.len() {
		match &v[i] {
			TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1) {
				Some(TokenTree::Ident(n)) => {
					let Some((false, e)) = b.get(&n.to_string()) else { return Err(format!("${n} is not at hand")) };
					r.push(format!("seq![{e}]"));
					i += 2; continue;
				},
				Some(TokenTree::Group(g)) => {
					let (sep, _, used) = rep_op(&v[i + 2..])?;
					let s = match sep { None => "Seq::<Tok>::empty()".to_owned(), Some(c) => format!("seq![Tok::P({}int)]", c as u32) };
					r.push(match repeated(g.stream(), b, &mut None) {
						Ok(items) => match sep { None => items, Some(c) => format!("joined({items}, Tok::P({}int))", c as u32) },
						Err(_) => {
							let (b, items) = each(g.stream(), b)?;
							let inner: Vec<TokenTree> = g.stream().into_iter().collect();
							format!("tokens_all(Seq::new({items}.len(), |vx_i: int| {}), {s})", template(&inner, &b, words)?)
						},
					});
					i += 2 + used; continue;
				},
				_ => return Err("a lone $".to_owned()),
			},
			TokenTree::Punct(p) => r.push(format!("seq![Tok::P({}int)]", p.as_char() as u32)),
			TokenTree::Ident(n) => r.push(format!("seq![Tok::W({})]", words.id(&n.to_string()))),
			TokenTree::Literal(l) => {
				let t = l.to_string();
				match syn::parse_str::<syn::LitStr>(&t) {
					Ok(s) => r.push(format!("seq![Tok::E({})]", text(&s.value()))),
					Err(_) if t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') => r.push(format!("seq![Tok::W({})]", words.id(&t))),
					Err(_) => return Err("a literal given to a macro".to_owned()),
				}
			},
			TokenTree::Group(g) => {
				let inner: Vec<TokenTree> = g.stream().into_iter().collect();
				r.push(format!("seq![Tok::G({}int, {})]", kind_of(g.delimiter()), template(&inner, b, words)?));
			},
		}
		i += 1;
	}
	Ok(match r.len() { 0 => "Seq::<Tok>::empty()".to_owned(), _ => { let mut it = r.into_iter(); let f = it.next().unwrap(); it.fold(f, |a, x| format!("({a} + {x})")) } })
}
/// `$( $x )`, or `$( $x , )`.
fn repeated(ts: TokenStream, b: &Bind, comma: &mut Option<()>) -> Res<String> {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let name = match v.as_slice() {
		[TokenTree::Punct(_), TokenTree::Ident(n)] => n,
		[TokenTree::Punct(_), TokenTree::Ident(n), TokenTree::Punct(c)] if c.as_char() == ',' && comma.is_some() => n,
		_ => return Err("an unusual repetition in a body".to_owned()),
	};
	match b.get(&name.to_string()) { Some((true, e)) => Ok(e.clone()), _ => Err(format!("${name} is not repeated")) }
}
/// The bindings for one item of a repetition that uses one repeated fragment, and the items.
fn each(ts: TokenStream, b: &Bind) -> Res<(Bind, String)> {
	fn used(ts: TokenStream, b: &Bind, out: &mut BTreeSet<String>) {
		let v: Vec<TokenTree> = ts.into_iter().collect();
		for (i, t) in v.iter().enumerate() {
			match t {
				TokenTree::Group(g) => used(g.stream(), b, out),
				TokenTree::Ident(n) if i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '$') => if matches!(b.get(&n.to_string()), Some((true, _))) { out.insert(n.to_string()); },
				_ => {},
			}
		}
	}
	let mut u = BTreeSet::new();
	used(ts, b, &mut u);
	let mut it = u.into_iter();
	let (Some(n), None) = (it.next(), it.next()) else { return Err("an unusual repetition in a body".to_owned()) };
	let items = b[&n].1.clone();
	let mut c = b.clone();
	c.insert(n, (false, format!("{items}[vx_i]")));
	Ok((c, items))
}
fn text(s: &str) -> String {
	if s.is_empty() { return "Seq::<char>::empty()".to_owned(); }
	format!("seq![{}]", s.chars().map(|c| format!("'\\u{{{:x}}}'", c as u32)).collect::<Vec<_>>().join(", "))
}

/// The text of a body: `(expression of type Option<Seq<char>>)`.
fn value(v: &[TokenTree], b: &Bind, words: &Words, calls: &mut BTreeSet<String>) -> Res<String> {
	// Leading path.
	let mut i = 0;
	let mut last = None;
	let mut path = false;
	while i < v.len() {
		match &v[i] {
			TokenTree::Punct(p) if p.as_char() == ':' => { path = true; },
			TokenTree::Punct(p) if p.as_char() == '$' && matches!(v.get(i + 1), Some(TokenTree::Ident(n)) if n == "crate") => {},
			TokenTree::Ident(n) => last = Some(n.to_string()),
			_ => break,
		}
		i += 1;
	}
	match (last, &v[i..]) {
		(Some(m), [TokenTree::Punct(p), TokenTree::Group(g)]) if p.as_char() == '!' => {
			let inner: Vec<TokenTree> = g.stream().into_iter().collect();
			if m == "concat" { return concat(&inner, b, words, calls); }
			if m == "stringify" || m == "env" || m == "include_str" { return Err(format!("{m}! in a body")); }
			calls.insert(m.clone());
			Ok(format!("m_{m}((n - 1) as nat, {})", template(&inner, b, words)?))
		},
		(None, [TokenTree::Literal(l)]) if !path => match syn::parse_str::<syn::LitStr>(&l.to_string()) {
			Ok(s) => Ok(format!("Some({})", text(&s.value()))),
			Err(_) => Err("a literal that is not text".to_owned()),
		},
		(None, [TokenTree::Punct(p), TokenTree::Ident(n)]) if !path && p.as_char() == '$' => match b.get(&n.to_string()) {
			Some((false, e)) => Ok(format!("shown({e})")),
			_ => Err(format!("${n} is not at hand")),
		},
		(None, [TokenTree::Group(g)]) if !path => { let inner: Vec<TokenTree> = g.stream().into_iter().collect(); value(&inner, b, words, calls) },
		_ => Err("a body that is neither text nor a macro".to_owned()),
	}
}
fn concat(v: &[TokenTree], b: &Bind, words: &Words, calls: &mut BTreeSet<String>) -> Res<String> {
	let mut parts: Vec<String> = Vec::new();
	let mut i = 0;
	while i < v.len() {
		// $( ... )
		if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
			if p.as_char() == '$' {
				let (sep, _, used) = rep_op(&v[i + 2..])?;
				let mut comma = if sep.is_none() { Some(()) } else { None };
				if sep.is_some_and(|c| c != ',') { return Err("an unusual separator".to_owned()); }
				parts.push(match repeated(g.stream(), b, &mut comma) {
					Ok(e) => format!("shown_all({e})"),
					Err(_) => {
						let (b, items) = each(g.stream(), b)?;
						let inner: Vec<TokenTree> = g.stream().into_iter().collect();
						if sep.is_none() && !matches!(inner.last(), Some(TokenTree::Punct(c)) if c.as_char() == ',') { return Err("parts without a comma".to_owned()); }
						format!("cat_all(Seq::new({items}.len(), |vx_i: int| {}))", concat(&inner, &b, words, calls)?)
					},
				});
				i += 2 + used;
				// An empty repetition before a comma would not parse, so it is not empty.
				if matches!(v.get(i), Some(TokenTree::Punct(c)) if c.as_char() == ',') { i += 1; }
				continue;
			}
		}
		let mut j = i;
		while j < v.len() && !matches!(&v[j], TokenTree::Punct(c) if c.as_char() == ',') { j += 1; }
		parts.push(value(&v[i..j], b, words, calls)?);
		i = j + 1;
	}
	let mut it = parts.into_iter().rev();
	let f = it.next().unwrap_or_else(|| "Some(Seq::<char>::empty())".to_owned());
	Ok(it.fold(f, |a, x| format!("cat({x}, {a})")))
}

struct Arm { cond: String, expr: bool, body: String }
fn arms(ts: TokenStream, words: &Words, calls: &mut BTreeSet<String>) -> Res<Vec<Arm>> {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut r = Vec::new();
	let mut i = 0;
	while i < v.len() {
		let (Some(TokenTree::Group(p)), Some(TokenTree::Punct(a)), Some(TokenTree::Punct(z)), Some(TokenTree::Group(body))) = (v.get(i), v.get(i + 1), v.get(i + 2), v.get(i + 3)) else { return Err("not an arm".to_owned()) };
		if a.as_char() != '=' || z.as_char() != '>' { return Err("not an arm".to_owned()); }
		i += 4;
		if matches!(v.get(i), Some(TokenTree::Punct(c)) if c.as_char() == ';') { i += 1; }
		let (mut c, mut b, mut expr) = (Vec::new(), Bind::new(), false);
		cond(&pattern(p.stream())?, "ts", &mut c, &mut b, &mut expr, words)?;
		let inner: Vec<TokenTree> = body.stream().into_iter().collect();
		r.push(Arm { cond: c.join(" && "), expr, body: value(&inner, &b, words, calls)? });
	}
	Ok(r)
}

fn find(items: &[Item], out: &mut BTreeMap<String, Vec<TokenStream>>) {
	for i in items {
		match i {
			Item::Mod(m) => if let Some((_, x)) = &m.content { find(x, out); },
			Item::Macro(m) if m.mac.path.is_ident("macro_rules") => if let Some(n) = &m.ident { out.entry(n.to_string()).or_default().push(m.mac.tokens.clone()); },
			_ => {},
		}
	}
}
fn collect(ts: TokenStream, out: &mut BTreeSet<String>) {
	for t in ts {
		match t {
			TokenTree::Ident(n) => { out.insert(n.to_string()); },
			TokenTree::Literal(l) => { out.insert(l.to_string()); },
			TokenTree::Group(g) => collect(g.stream(), out),
			TokenTree::Punct(_) => {},
		}
	}
}

/// `WORD!(x)` in the plan's text.
fn placed(s: &str, words: &Words) -> String {
	let mut out = String::new();
	let mut rest = s;
	while let Some(k) = rest.find("WORD!(") {
		out.push_str(&rest[..k]);
		rest = &rest[k + 6..];
		let e = rest.find(')').expect("WORD!()");
		out.push_str(&words.id(&rest[..e]));
		rest = &rest[e + 1..];
	}
	out + rest
}
fn placed_words(s: &str, out: &mut BTreeSet<String>) {
	let mut rest = s;
	while let Some(k) = rest.find("WORD!(") { rest = &rest[k + 6..]; let e = rest.find(')').expect("WORD!()"); out.insert(rest[..e].to_owned()); }
}

pub fn generate(file: &File, plan: &Plan, trust: &[String], drop: &[String]) -> Out {
	let mut defs = BTreeMap::new();
	find(&file.items, &mut defs);
	let (mut all, mut own) = (BTreeSet::new(), BTreeSet::new());
	for d in defs.values().flatten() { collect(d.clone(), &mut all); }
	for e in &plan.entries { match e { Entry::Raw(t) => placed_words(t, &mut own), Entry::Fn(f) => placed_words(&f.begin, &mut own), _ => {} } }
	let count = own.len();
	let words = Words(own.iter().cloned().chain(all.into_iter().filter(|w| !own.contains(w))).collect());
	let (mut texts, mut calls) = (BTreeMap::new(), BTreeMap::new());
	for (name, d) in &defs {
		let mut c = BTreeSet::new();
		let r = if d.len() == 1 { arms(d[0].clone(), &words, &mut c) } else { Err("defined more than once".to_owned()) };
		texts.insert(name.clone(), r);
		calls.insert(name.clone(), c);
	}
	// Who calls itself in the end.
	let recursive = |n: &String| {
		let (mut seen, mut todo) = (BTreeSet::new(), vec![n.clone()]);
		while let Some(x) = todo.pop() { for y in calls.get(&x).into_iter().flatten() { if seen.insert(y.clone()) { todo.push(y.clone()); } } }
		seen.contains(n)
	};
	let none = |name: &str| format!("pub uninterp spec fn u_{name}(n: nat, ts: Seq<Tok>) -> Option<Seq<char>>;\npub open spec fn m_{name}(n: nat, ts: Seq<Tok>) -> Option<Seq<char>> {{ u_{name}(n, ts) }}\n");
	let emit = |name: &String| -> Res<String> {
		let a = match texts.get(name) { None => return Err("anchor: there is no such macro".to_owned()), Some(Err(e)) => return Err(format!("anchor: {e}")), Some(Ok(a)) => a };
		for c in &calls[name] { if !texts.contains_key(c) { return Err(format!("anchor: {c}! is not known")); } }
		let mut out = String::new();
		// In pieces, the later ones first.
		let parts: Vec<&[Arm]> = a.chunks(32).collect();
		let dec = if recursive(name) { "\n\tdecreases n, SUB" } else { "" };
		for (k, p) in parts.iter().enumerate() {
			let mut t = String::new();
			for x in *p { t.push_str(&format!("\tif {} {{\n\t\t{}\n\t}} else {}", x.cond, x.body, if x.expr { "if true { None } else " } else { "" })); }
			let end = if k + 1 < parts.len() { format!("{{ m_{name}_{}(n, ts) }}", k + 1) } else { "{ None }".to_owned() };
			let nm = if k == 0 { format!("m_{name}") } else { format!("m_{name}_{k}") };
			let d = dec.replace("SUB", &format!("{}nat", parts.len() - k));
			out.push_str(&format!("pub open spec fn {nm}(n: nat, ts: Seq<Tok>) -> Option<Seq<char>>{d}\n{{\n\tif n == 0 {{ None }} else\n{t}{end}\n}}\n"));
		}
		Ok(out)
	};
	let mut map = String::new();
	let mut text = String::from("#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\n");
	let mut lost = Vec::new();
	let planned: BTreeSet<&str> = plan.entries.iter().filter_map(|e| if let Entry::Fn(f) = e { f.key.strip_prefix("macro ") } else { None }).collect();
	for n in defs.keys() { if !planned.contains(n.as_str()) { match emit(n) { Ok(t) => text.push_str(&t), Err(_) => text.push_str(&none(n)) } } }
	for e in &plan.entries {
		match e {
			Entry::Raw(t) => { text.push_str(&placed(t, &words).replace("WORDS!()", &format!("{count}int"))); text.push('\n'); },
			Entry::Fn(f) => {
				let name = f.key.strip_prefix("macro ").expect("macro").to_owned();
				if drop.contains(&f.key) { text.push_str(&none(&name)); continue; }
				let t = emit(&name);
				let trusted = trust.contains(&f.key) || t.is_err();
				if let Err(m) = &t { lost.push((f.key.clone(), m.clone())); }
				let start = text.lines().count() + 1;
				match t { Ok(t) if !trusted => text.push_str(&t), _ => text.push_str(&none(&name)) }
				let body = placed(&f.begin, &words).replace("WORDS!()", &format!("{count}int"));
				if trusted { text.push_str(&body.replace("pub proof fn", "#[verifier::external_body]\npub proof fn")); } else { text.push_str(&body); }
				text.push('\n');
				let end = text.lines().count();
				map.push_str(&format!("fn\t{}\tm_{name}\t{start}\t{end}\t{}\t{}\n", f.key, f.props.join(","), if trusted { "trusted" } else { "" }));
			},
			_ => panic!("not a plan of macros"),
		}
	}
	text.push_str("} // verus!\nfn main() {}\n");
	for (k, m) in lost { map.push_str(&format!("lost\t{k}\t{}\n", m.replace(['\n', '\t'], " "))); }
	Out { text, map }
}
