//! The plan: which functions, and their contracts.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnPlan {
	pub key: String,
	pub name: Option<String>,
	pub imp: Option<String>,
	pub free: bool,
	/// Inside of an impl or trait block that the plan opens.
	pub bare: bool,
	pub mutself: bool,
	pub props: Vec<String>,
	pub ret: Option<String>,
	pub rettype: Option<String>,
	pub params: String,
	pub attrs: String,
	pub sig: String,
	pub optional: bool,
	pub trusted: bool,
	/// The body is that of the closure with this number.
	pub closurebody: Option<usize>,
	pub kinds: BTreeMap<String, String>,
	pub loops: BTreeMap<usize, String>,
	pub loopbegin: BTreeMap<usize, String>,
	pub loopend: BTreeMap<usize, String>,
	pub afterloop: BTreeMap<usize, String>,
	pub closures: BTreeMap<usize, String>,
	pub before: BTreeMap<(String, usize), String>,
	pub after: BTreeMap<(String, usize), String>,
	pub begin: String,
	pub end: String,
	pub macros: BTreeMap<String, String>,
	pub callargs: BTreeMap<String, String>,
	/// The closure that is an argument of such a call is verified elsewhere; this stands for it.
	pub hold: BTreeMap<String, String>,
	/// Path renames, here only.
	pub paths: BTreeMap<String, String>,
	/// Method renames, here only.
	pub methods: Vec<(String, Option<usize>, String)>,
}

#[derive(Clone, Debug)]
pub enum Entry {
	Raw(String),
	Fn(Box<FnPlan>),
	Item { kind: String, name: String, opts: String },
	Assoc { ty: String, name: String, opts: String },
	Inner { func: String, name: String, opts: String },
	/// A constant array as a function of the index: element type, postcondition, proof (of `{i}`).
	Table { name: String, ty: String, ens: String, proof: String, props: String },
}

#[derive(Default, Debug)]
pub struct Plan {
	pub entries: Vec<Entry>,
	/// Method renames: name -> (arity or none) -> new name.
	pub methods: Vec<(String, Option<usize>, String)>,
	pub paths: BTreeMap<String, String>,
	pub ufcs: BTreeMap<String, String>,
	pub flags: Vec<String>,
	pub broadcast: Vec<String>,
	/// Functions of the source that a wrapper of the plan stands for.
	pub noinline: Vec<String>,
	pub callargs: BTreeMap<String, String>,
	seen: Vec<std::path::PathBuf>,
}

impl Plan {
	pub fn table(&self, n: &str) -> bool { self.entries.iter().any(|e| matches!(e, Entry::Table { name, .. } if name == n)) }
	pub fn flag(&self, f: &str) -> bool { self.flags.iter().any(|x| x == f) }

	pub fn read(&mut self, path: &str) {
		let txt = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
		let full = std::fs::canonicalize(path).unwrap();
		if self.seen.contains(&full) { return; }
		self.seen.push(full);
		let dir = std::path::Path::new(path).parent().unwrap().to_owned();
		let lines: Vec<&str> = txt.lines().collect();
		let mut i = 0;
		while i < lines.len() {
			let l = lines[i];
			i += 1;
			let t = l.trim_end();
			if t.is_empty() || t.starts_with("//") || t.starts_with("#") { continue; }
			let (cmd, rest) = t.split_once(' ').unwrap_or((t, ""));
			let rest = rest.trim();
			match cmd {
				"@include" => self.read(dir.join(rest).to_str().unwrap()),
				"@broadcast" => self.broadcast.extend(rest.split_whitespace().map(str::to_owned)),
				"@noinline" => self.noinline.extend(rest.split_whitespace().map(str::to_owned)),
				"@callargs" => { let (a, b) = rest.split_once(' ').unwrap(); self.callargs.insert(a.into(), b.trim().into()); },
				"@also" => {},
				"@flag" => self.flags.push(rest.into()),
				"@raw" => {
					let mut s = String::new();
					while i < lines.len() && lines[i].trim_end() != "@end" { s.push_str(lines[i]); s.push('\n'); i += 1; }
					i += 1;
					self.entries.push(Entry::Raw(s));
				},
				"@method" => {
					let w: Vec<&str> = rest.split_whitespace().collect();
					match w.len() {
						2 => self.methods.push((w[0].into(), None, w[1].into())),
						3 => self.methods.push((w[0].into(), Some(w[1].parse().unwrap()), w[2].into())),
						_ => panic!("bad @method {rest}"),
					}
				},
				"@path" => { let (a, b) = rest.split_once(' ').unwrap(); self.paths.insert(a.into(), b.trim().into()); },
				"@ufcs" => { let (a, b) = rest.split_once(" => ").unwrap(); self.ufcs.insert(a.replace(' ', ""), b.trim().into()); },
				"@item" => {
					let mut w = rest.splitn(3, ' ');
					let kind = w.next().unwrap().into(); let name = w.next().unwrap().into();
					self.entries.push(Entry::Item { kind, name, opts: w.next().unwrap_or("").into() });
				},
				"@table" => {
					let (name, rest) = rest.split_once(' ').unwrap();
					let w: Vec<&str> = rest.split('|').map(str::trim).collect();
					self.entries.push(Entry::Table { name: name.into(), ty: w[0].into(), ens: w[1].into(), proof: w.get(2).copied().unwrap_or("").into(), props: w.get(3).copied().unwrap_or("").replace(' ', ",") });
				},
				"@assoc" => {
					let mut w = rest.splitn(3, ' ');
					let ty = w.next().unwrap().into(); let name = w.next().unwrap().into();
					self.entries.push(Entry::Assoc { ty, name, opts: w.next().unwrap_or("").into() });
				},
				"@inner" => {
					let mut w = rest.splitn(3, ' ');
					let func = w.next().unwrap().into(); let name = w.next().unwrap().into();
					self.entries.push(Entry::Inner { func, name, opts: w.next().unwrap_or("").into() });
				},
				"@fn" => {
					let mut f = FnPlan { key: rest.into(), ..FnPlan::default() };
					while i < lines.len() && !lines[i].starts_with('@') {
						let l = lines[i]; i += 1;
						if l.trim().is_empty() || l.starts_with("//") { continue; }
						let Some(l) = l.strip_prefix('+') else { panic!("{path}:{i}: stray line in @fn {}: {l}", f.key); };
						let (cmd, rest) = l.split_once(' ').unwrap_or((l, ""));
						let rest = rest.trim();
						let mut body = || {
							let mut s = String::new();
							while i < lines.len() && !lines[i].starts_with('@') && !lines[i].starts_with('+') { if !lines[i].starts_with("# ") { s.push_str(lines[i]); s.push('\n'); } i += 1; }
							s
						};
						let anchor = |r: &str| -> (String, usize) { let (a, n) = r.split_once('#').unwrap_or((r, "0")); (a.trim().to_owned(), n.trim().parse().unwrap()) };
						match cmd {
							"as" => f.name = Some(rest.into()),
							"impl" => f.imp = Some(rest.into()),
							"free" => f.free = true,
							"bare" => f.bare = true,
							"mutself" => f.mutself = true,
							"optional" => f.optional = true,
							"trusted" => f.trusted = true,
							"closurebody" => f.closurebody = Some(rest.parse().unwrap()),
							"props" => f.props = rest.split_whitespace().map(str::to_owned).collect(),
							"ret" => f.ret = Some(rest.into()),
							"rettype" => f.rettype = Some(rest.into()),
							"params" => f.params = rest.into(),
							"attrs" => f.attrs.push_str(rest),
							"kind" => { let (a, b) = rest.split_once(' ').unwrap(); f.kinds.insert(a.into(), b.trim().into()); },
							"method" => { let (a, b) = rest.split_once(' ').unwrap(); f.methods.push((a.into(), None, b.trim().into())); },
							"path" => { let (a, b) = rest.split_once(' ').unwrap(); f.paths.insert(a.into(), b.trim().into()); },
							"hold" => { let (a, b) = rest.split_once(' ').unwrap(); f.hold.insert(a.into(), b.trim().into()); },
							"callargs" => { let (a, b) = rest.split_once(' ').unwrap(); f.callargs.insert(a.into(), b.trim().into()); },
							"macro" => { let (a, b) = rest.split_once(' ').unwrap(); f.macros.insert(a.into(), b.trim().into()); },
							"sig" => f.sig = body(),
							"loop" => { let n = rest.parse().unwrap(); f.loops.insert(n, body()); },
							"loopbegin" => { let n = rest.parse().unwrap(); f.loopbegin.insert(n, body()); },
							"loopend" => { let n = rest.parse().unwrap(); f.loopend.insert(n, body()); },
							"afterloop" => { let n = rest.parse().unwrap(); f.afterloop.insert(n, body()); },
							"closure" => { let n = rest.parse().unwrap(); f.closures.insert(n, body()); },
							"before" => { let a = anchor(rest); f.before.insert(a, body()); },
							"after" => { let a = anchor(rest); f.after.insert(a, body()); },
							"begin" => f.begin = body(),
							"end" => f.end = body(),
							_ => panic!("{path}:{i}: bad directive +{cmd}"),
						}
					}
					self.entries.push(Entry::Fn(Box::new(f)));
				},
				_ => panic!("{path}:{i}: bad directive {cmd}"),
			}
		}
	}
}
