//! Contract files: `*.vc` (per function) and `*.rs` (specification functions and lemmas).
use proc_macro2::TokenStream;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// R14: the object that stands for a closure argument
#[derive(Clone, Debug, Default)]
pub struct Object {
	/// the function the closure is handed to
	pub callee: String,
	/// its signature as a function; the captured variables come first, by mutable reference
	pub sig: String,
	/// the captured variables
	pub caps: Vec<String>,
	/// the object, made from the captured variables
	pub new: String,
	/// what gives them back
	pub back: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
	pub objects: Vec<Object>,
	pub ret: Option<String>,
	pub attrs: String,
	pub spec: String,
	pub loops: BTreeMap<usize, String>,
	pub closures: BTreeMap<usize, String>,
	pub inserts: Vec<(String, String)>,
	pub external: bool,
}

#[derive(Default)]
pub struct Contracts {
	pub fns: BTreeMap<String, FnSpec>,
	pub dropped: BTreeMap<String, String>,
	pub inherent: BTreeSet<String>,
	pub rename: BTreeMap<String, String>,
	/// text put at the top of a module
	pub module_extra: BTreeMap<String, String>,
	pub prelude: Vec<(String, String)>,
	pub type_attrs: BTreeMap<String, String>,
	pub trait_extra: BTreeMap<String, String>,
	pub impl_extra: BTreeMap<String, String>,
	pub hoisted_out: Vec<TokenStream>,
	/// functions that existed when the contracts were written (never treated as helpers)
	pub known: BTreeSet<String>,
	pub unusable: BTreeSet<String>,
}

impl Contracts {
	pub fn load(dir: &Path) -> Self {
		let mut c = Contracts::default();
		let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
		files.sort();
		for f in files {
			let name = f.file_name().unwrap().to_string_lossy().to_string();
			let text = std::fs::read_to_string(&f).unwrap();
			if name.ends_with(".rs") {
				c.prelude.push((name, text));
			} else if name == "known.txt" {
				c.known = text.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
			} else if name.ends_with(".vc") {
				c.parse(&text, &name);
			}
		}
		for n in c.known.iter().chain(c.dropped.keys()) {
			if !c.fns.contains_key(n) && !n.contains("*") {
				let last = n.rsplit("::").next().unwrap().to_string();
				if n.matches("::").count() == 0 || n.split("::").next().unwrap().chars().next().unwrap().is_lowercase() {
					c.unusable.insert(last);
				}
			}
		}
		c
	}

	fn parse(&mut self, text: &str, name: &str) {
		enum Sect {
			None,
			Spec,
			Attr,
			Loop(usize),
			Closure(usize),
			Object(usize),
			At(usize),
			Skipped,
			Type(String),
			Trait(String),
			Impl(String),
			Module(String),
		}
		let mut cur: Option<String> = None;
		let mut sect = Sect::None;
		for (ln, line) in text.lines().enumerate() {
			if let Some(d) = line.strip_prefix('@') {
				let (w, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
				let rest = rest.trim();
				let err = |m: &str| -> ! { panic!("{name}:{}: {m}", ln + 1) };
				match w {
					"fn" => {
						cur = Some(rest.to_string());
						if self.fns.insert(rest.to_string(), FnSpec::default()).is_some() {
							err("duplicate function")
						}
						sect = Sect::None;
					}
					"ret" => self.fns.get_mut(cur.as_ref().unwrap()).unwrap().ret = Some(rest.to_string()),
					"external" => self.fns.get_mut(cur.as_ref().unwrap()).unwrap().external = true,
					"spec" => sect = Sect::Spec,
					"attr" => {
						self.fns.get_mut(cur.as_ref().unwrap()).unwrap().attrs.push_str(rest);
						sect = Sect::Attr
					}
					// what must hold where user code may panic (R24)
					"unwind" | "unwind-loop" if !unwinding() => sect = Sect::Skipped,
					"loop" | "unwind-loop" => sect = Sect::Loop(rest.parse().unwrap()),
					"closure" => sect = Sect::Closure(rest.parse().unwrap()),
					"object" => {
						let f = self.fns.get_mut(cur.as_ref().unwrap()).unwrap();
						f.objects.push(Object { callee: rest.to_string(), ..Object::default() });
						sect = Sect::Object(f.objects.len() - 1);
					}
					"at" | "unwind" => {
						let f = self.fns.get_mut(cur.as_ref().unwrap()).unwrap();
						f.inserts.push((rest.to_string(), String::new()));
						sect = Sect::At(f.inserts.len() - 1);
					}
					"drop" => {
						let (p, r) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
						self.dropped.insert(p.to_string(), r.to_string());
						sect = Sect::None;
					}
					"inherent" => {
						self.inherent.insert(rest.to_string());
					}
					"rename" => {
						let (p, r) = rest.split_once(char::is_whitespace).unwrap();
						self.rename.insert(p.to_string(), r.trim().to_string());
					}
					"type" => sect = Sect::Type(rest.to_string()),
					"trait" => sect = Sect::Trait(rest.to_string()),
					"module" => sect = Sect::Module(rest.to_string()),
					"impl" => sect = Sect::Impl(rest.to_string()),
					"--" => sect = Sect::None,
					_ => err("unknown directive"),
				}
				continue;
			}
			let push = |s: &mut String| {
				s.push_str(line);
				s.push('\n');
			};
			match &sect {
				Sect::None => {
					if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
						panic!("{name}:{}: stray text", ln + 1)
					}
				}
				Sect::Skipped => (),
				Sect::Type(n) => push(self.type_attrs.entry(n.clone()).or_default()),
				Sect::Trait(n) => push(self.trait_extra.entry(n.clone()).or_default()),
				Sect::Module(n) => push(self.module_extra.entry(n.clone()).or_default()),
				Sect::Impl(n) => push(self.impl_extra.entry(n.clone()).or_default()),
				s => {
					let f = self.fns.get_mut(cur.as_ref().unwrap()).unwrap();
					match s {
						Sect::Spec => push(&mut f.spec),
						Sect::Attr => push(&mut f.attrs),
						Sect::Loop(n) => push(f.loops.entry(*n).or_default()),
						Sect::Closure(n) => push(f.closures.entry(*n).or_default()),
						Sect::At(n) => push(&mut f.inserts[*n].1),
						Sect::Object(n) => {
							let o = &mut f.objects[*n];
							match line.trim().split_once(':').map(|(k, v)| (k, v.trim().to_string())) {
								None => (),
								Some(("sig", v)) => o.sig = v,
								Some(("caps", v)) => o.caps = v.split(',').map(|x| x.trim().to_string()).collect(),
								Some(("new", v)) => o.new = v,
								Some(("back", v)) => o.back = v,
								Some(_) => panic!("{name}:{}: object", ln + 1),
							}
						}
						_ => unreachable!(),
					}
				}
			}
		}
	}
}

/// R24 is asked for
pub fn unwinding() -> bool {
	std::env::var("EXTRACT_UNWIND").is_ok()
}
