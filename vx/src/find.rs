//! Locating functions and items in the expanded source.
use quote::ToTokens;
use syn::*;

pub fn parse(src: &str) -> File {
	match syn::parse_file(src) {
		Ok(f) => f,
		Err(e) => { eprintln!("cannot parse expanded source: {e}"); std::process::exit(3); },
	}
}

#[derive(Clone)]
pub struct Func {
	pub key: String,
	pub module: String,
	pub imp: Option<ItemImpl>,
	pub sig: Signature,
	pub block: Block,
	/// Traits: provided methods.
	pub tr: Option<ItemTrait>,
}

pub fn norm(t: &impl ToTokens) -> String {
	let s = t.to_token_stream().to_string();
	// Drop lifetimes and whitespace.
	let mut out = String::new();
	let mut chars = s.chars().peekable();
	while let Some(c) = chars.next() {
		if c == '\'' {
			while chars.peek().is_some_and(|c| c.is_alphanumeric() || *c == '_') { chars.next(); }
			while chars.peek().is_some_and(|c| *c == ' ' || *c == ',') { chars.next(); }
			continue;
		}
		if c == ' ' { continue; }
		out.push(c);
	}
	out.replace("<>", "")
}

fn short(p: &Path) -> String {
	// Only the last segment of a path counts (imports vary).
	norm(&p.segments.last().unwrap())
}

pub fn short_ty(t: &Type) -> String {
	match t {
		Type::Path(p) if p.qself.is_none() => short(&p.path),
		Type::Reference(r) => format!("&{}", short_ty(&r.elem)),
		Type::Tuple(t) => format!("({})", t.elems.iter().map(short_ty).collect::<Vec<_>>().join(",")),
		t => norm(t),
	}
}

pub fn is_test(attrs: &[Attribute]) -> bool {
	attrs.iter().any(|a| norm(a).contains("cfg(test)") || norm(a) == "#[test]")
}

pub fn index(file: &File) -> Vec<Func> {
	let mut out = Vec::new();
	walk(&file.items, "", &mut out);
	out
}

fn nested(block: &Block, key: &str, module: &str, out: &mut Vec<Func>) {
	for s in &block.stmts {
		if let Stmt::Item(Item::Fn(f)) = s {
			let k = format!("{key}::{}", f.sig.ident);
			out.push(Func { key: k.clone(), module: module.into(), imp: None, sig: f.sig.clone(), block: (*f.block).clone(), tr: None });
			nested(&f.block, &k, module, out);
		}
	}
}

fn walk(items: &[Item], module: &str, out: &mut Vec<Func>) {
	for it in items {
		match it {
			Item::Mod(m) if !is_test(&m.attrs) => {
				if let Some((_, items)) = &m.content {
					let sub = if module.is_empty() { m.ident.to_string() } else { format!("{module}::{}", m.ident) };
					walk(items, &sub, out);
				}
			},
			Item::Fn(f) if !is_test(&f.attrs) => {
				let key = f.sig.ident.to_string();
				out.push(Func { key: key.clone(), module: module.into(), imp: None, sig: f.sig.clone(), block: (*f.block).clone(), tr: None });
				nested(&f.block, &key, module, out);
			},
			Item::Trait(t) => {
				for i in &t.items {
					if let TraitItem::Fn(f) = i {
						if let Some(b) = &f.default {
							let key = format!("trait {}::{}", t.ident, f.sig.ident);
							out.push(Func { key, module: module.into(), imp: None, sig: f.sig.clone(), block: b.clone(), tr: Some(t.clone()) });
						}
					}
				}
			},
			Item::Impl(i) => {
				let ty = short_ty(&i.self_ty);
				let prefix = match &i.trait_ { Some((_, p, _)) => format!("{ty} as {}", tr_name(p)), None => ty };
				for x in &i.items {
					if let ImplItem::Fn(f) = x {
						let key = format!("{prefix}::{}", f.sig.ident);
						out.push(Func { key: key.clone(), module: module.into(), imp: Some(i.clone()), sig: f.sig.clone(), block: f.block.clone(), tr: None });
						nested(&f.block, &key, module, out);
					}
				}
			},
			_ => {},
		}
	}
}

fn tr_name(p: &Path) -> String {
	let l = p.segments.last().unwrap();
	match &l.arguments {
		PathArguments::AngleBracketed(a) => {
			let args: Vec<String> = a.args.iter().filter_map(|g| match g { GenericArgument::Type(t) => Some(short_ty(t)), GenericArgument::Lifetime(_) => None, o => Some(norm(o)) }).collect();
			if args.is_empty() { l.ident.to_string() } else { format!("{}<{}>", l.ident, args.join(",")) }
		},
		_ => l.ident.to_string(),
	}
}

/// An item (struct, enum, const, static, trait) by kind and name.
pub fn item<'a>(items: &'a [Item], kind: &str, name: &str) -> Vec<&'a Item> {
	let mut out = Vec::new();
	for it in items {
		match it {
			Item::Mod(m) if !is_test(&m.attrs) => { if let Some((_, i)) = &m.content { out.extend(item(i, kind, name)); } },
			Item::Struct(s) if kind == "struct" && s.ident == name => out.push(it),
			Item::Enum(s) if kind == "enum" && s.ident == name => out.push(it),
			Item::Const(s) if kind == "const" && s.ident == name => out.push(it),
			Item::Static(s) if kind == "static" && s.ident == name => out.push(it),
			Item::Trait(s) if kind == "trait" && s.ident == name => out.push(it),
			_ => {},
		}
	}
	out
}

/// An associated constant `Type::NAME`.
pub fn assoc_const(items: &[Item], ty: &str, name: &str) -> Option<ImplItemConst> {
	for it in items {
		match it {
			Item::Mod(m) if !is_test(&m.attrs) => { if let Some((_, i)) = &m.content { if let Some(c) = assoc_const(i, ty, name) { return Some(c); } } },
			Item::Impl(i) if i.trait_.is_none() && short_ty(&i.self_ty) == ty => {
				for x in &i.items { if let ImplItem::Const(c) = x { if c.ident == name { return Some(c.clone()); } } }
			},
			_ => {},
		}
	}
	None
}

/// Const/static declared inside of a function body, anywhere.
pub fn inner_item(block: &Block, name: &str) -> Option<Item> {
	struct V<'a>(&'a str, Option<Item>);
	impl<'ast> syn::visit::Visit<'ast> for V<'_> {
		fn visit_item(&mut self, i: &'ast Item) {
			match i {
				Item::Const(c) if c.ident == self.0 => self.1 = Some(i.clone()),
				Item::Static(c) if c.ident == self.0 => self.1 = Some(i.clone()),
				_ => {},
			}
			syn::visit::visit_item(self, i);
		}
	}
	let mut v = V(name, None);
	syn::visit::Visit::visit_block(&mut v, block);
	v.1
}
