//! Mechanical extraction of /repo/src into one Verus file.
//!
//! The function bodies are those of /repo, transformed only by the rules listed in `RULES`
//! (each is a definitional equality of Rust or of the standard library); contracts, loop
//! invariants and ghost statements are spliced in from the contract files.
mod contracts;
mod print;
mod rules;
mod boxes;

use contracts::*;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Ctx {
	pub src: PathBuf,
	pub db: Contracts,
	pub used: BTreeSet<String>,
	pub report: BTreeMap<&'static str, Vec<String>>,
	/// names of struct fields of type `Array<..>`
	pub array_fields: BTreeSet<String>,
	/// names of functions that return a slice
	pub slice_fns: BTreeSet<String>,
	/// associated types by type
	pub assoc: BTreeMap<(String, String), syn::Type>,
	/// new functions without contract, for which inlining is attempted
	pub helpers: BTreeMap<String, rules::Helper>,
	pub hashes: BTreeMap<String, String>,
	pub calls: BTreeMap<String, Vec<String>>,
	/// R14: the closures' bodies
	pub objects_out: TokenStream,
	/// functions whose contract is only assumed in this run (the verifier does not take their body)
	pub skip: BTreeSet<String>,
}

impl Ctx {
	pub fn note(&mut self, k: &'static str, v: String) {
		self.report.entry(k).or_default().push(v)
	}
}

fn is_cfg_dropped(attrs: &[Attribute]) -> bool {
	attrs.iter().any(|a| {
		a.path().is_ident("cfg") && {
			let t = a.meta.to_token_stream().to_string();
			t.contains("feature") || t.contains("test") || t.contains("kani") || t.contains("verif")
		}
	})
}

fn keep_attrs(attrs: &[Attribute]) -> Vec<Attribute> {
	// only derives survive (Clone, Copy, PartialEq, Eq)
	attrs
		.iter()
		.filter_map(|a| {
			if a.path().is_ident("derive") {
				let mut keep: Vec<Path_> = vec![];
				let _ = a.parse_nested_meta(|m| {
					let n = m.path.to_token_stream().to_string();
					if ["Clone", "Copy", "PartialEq", "Eq"].contains(&n.as_str()) {
						keep.push(m.path.clone());
					}
					Ok(())
				});
				if !keep.iter().any(|p| p.is_ident("Copy")) {
					None
				} else {
					Some(parse_quote!(#[derive(#(#keep),*)]))
				}
			} else {
				None
			}
		})
		.collect()
}
type Path_ = syn::Path;

fn mod_file(dir: &Path, name: &str) -> Option<(PathBuf, PathBuf)> {
	let f = dir.join(format!("{name}.rs"));
	if f.exists() {
		return Some((f, dir.join(name)));
	}
	let f = dir.join(name).join("mod.rs");
	if f.exists() {
		return Some((f, dir.join(name)));
	}
	None
}

/// Where two derives of `Clone`/`Copy` on a generic type matter Verus handles them itself.
fn emit_items(ctx: &mut Ctx, items: Vec<Item>, dir: &Path, module: &str) -> TokenStream {
	let mut out = TokenStream::new();
	for item in items {
		match item {
			Item::Mod(m) => {
				if is_cfg_dropped(&m.attrs) {
					continue;
				}
				let name = m.ident.to_string();
				let (items, sub) = if let Some((_, it)) = m.content {
					(it, dir.join(&name))
				} else {
					let (f, sub) = match mod_file(dir, &name) {
						Some(x) => x,
						None => {
							ctx.note("errors", format!("module {name} not found"));
							continue;
						}
					};
					let text = std::fs::read_to_string(f).unwrap();
					match syn::parse_file(&text) {
						Ok(f) => (f.items, sub),
						Err(e) => {
							ctx.note("errors", format!("parse {name}: {e}"));
							continue;
						}
					}
				};
				let id = &m.ident;
				let items = if name == "array" { rules::array_module(ctx, items) } else { items };
				let inner = emit_items(ctx, items, &sub, &name);
				let extra: TokenStream = ctx.db.module_extra.get(&name).cloned().unwrap_or_default().parse().expect("module text");
				for t in extra.to_string().split("__mark ! (\"").skip(1) {
					let p = t.split('"').next().unwrap().to_string();
					ctx.note("verified_functions", p.clone());
					ctx.calls.insert(p, vec![]);
				}
				// the type invariant of the buffer is known wherever its fields are not accessible
				let inv = if name == "array" { quote!() } else { quote!(broadcast use crate::vspec::axiom_array_wf;) };
				out.extend(quote!(pub mod #id {
					use vstd::prelude::*;
					use crate::vspec::*;
					#inv
					#extra
					#inner
				}));
			}
			Item::Use(mut u) => {
				// storage default methods live in extension traits, imported through vspec
				u.attrs.clear();
				u.vis = Visibility::Inherited;
				let gone = ctx.db.unusable.clone();
				if !rules::filter_use(&mut u.tree, &gone) {
					continue;
				}
				out.extend(quote!(#[allow(unused_imports)] pub #u));
			}
			Item::Const(mut c) => {
				c.attrs.clear();
				c.vis = parse_quote!(pub);
				out.extend(c.to_token_stream());
			}
			Item::Type(mut t) => {
				t.attrs.clear();
				t.vis = parse_quote!(pub);
				out.extend(t.to_token_stream());
			}
			Item::Struct(mut s) => {
				if is_cfg_dropped(&s.attrs) {
					continue;
				}
				let name = s.ident.to_string();
				if ctx.db.dropped.contains_key(&name) {
					ctx.note("dropped", name);
					continue;
				}
				for p in s.generics.params.iter_mut() {
					if let GenericParam::Type(t) = p {
						t.default = None;
						t.eq_token = None;
					}
				}
				s.attrs = keep_attrs(&s.attrs);
				s.vis = parse_quote!(pub);
				for f in s.fields.iter_mut() {
					f.attrs.clear();
					f.vis = parse_quote!(pub);
				}
				rules::IterTypes.visit_item_struct_mut(&mut s);
				if name == "IntoIter" {
					for f in s.fields.iter() {
						if let Some(n) = &f.ident {
							let c = quote::format_ident!("by_hand_{}_{}", name, n);
							let v = rules::by_hand(&f.ty).is_some();
							out.extend(quote!(pub open spec fn #c() -> bool { #v }));
						}
					}
				}
				rules::ByHand.visit_item_struct_mut(&mut s);
				if boxes::is(&name) {
					s.attrs.clear();
					boxes::Opaque.visit_item_struct_mut(&mut s);
				}
				if let Some(a) = ctx.db.type_attrs.get(&name) {
					let a: TokenStream = a.parse().unwrap();
					out.extend(a);
				}
				out.extend(s.to_token_stream());
			}
			Item::Enum(mut s) => {
				let name = s.ident.to_string();
				if ctx.db.dropped.contains_key(&name) {
					ctx.note("dropped", name);
					continue;
				}
				s.attrs = keep_attrs(&s.attrs);
				s.vis = parse_quote!(pub);
				for v in s.variants.iter_mut() {
					v.attrs.clear();
				}
				rules::IterTypes.visit_item_enum_mut(&mut s);
				if let Some(a) = ctx.db.type_attrs.get(&name) {
					let a: TokenStream = a.parse().unwrap();
					out.extend(a);
				}
				out.extend(s.to_token_stream());
			}
			Item::Fn(f) => {
				if is_cfg_dropped(&f.attrs) {
					continue;
				}
				let path = format!("{module}::{}", f.sig.ident);
				out.extend(rules::emit_fn(ctx, &path, f.sig, *f.block, true));
			}
			Item::Trait(t) => out.extend(emit_trait(ctx, t)),
			Item::Impl(i) => out.extend(emit_impl(ctx, i)),
			other => {
				ctx.note("errors", format!("unsupported item in {module}: {}", other.to_token_stream().to_string().chars().take(80).collect::<String>()));
			}
		}
	}
	out
}

fn emit_trait(ctx: &mut Ctx, mut t: ItemTrait) -> TokenStream {
	let name = t.ident.to_string();
	if ctx.db.dropped.contains_key(&name) {
		ctx.note("dropped", name);
		return quote!();
	}
	t.attrs.clear();
	t.vis = parse_quote!(pub);
	let mut req = TokenStream::new();
	let mut ext = TokenStream::new();
	let gens = &t.generics;
	let ident = &t.ident;
	for it in t.items.clone() {
		match it {
			TraitItem::Fn(mut f) => {
				let path = format!("{name}::{}", f.sig.ident);
				if ctx.db.dropped.contains_key(&path) {
					ctx.note("dropped", path);
					continue;
				}
				match f.default.take() {
					None => {
						let sp = ctx.db.fns.get(&path).cloned().unwrap_or_default();
						ctx.used.insert(path.clone());
						req.extend(rules::emit_sig_only(ctx, &path, f.sig, &sp));
					}
					Some(b) => {
						let body = rules::emit_fn(ctx, &path, f.sig.clone(), b, false);
						let en = quote::format_ident!("Ext_{}", f.sig.ident);
						let (_, tyg, _) = gens.split_for_impl();
						let params = &gens.params;
						ext.extend(quote! {
							pub trait #en #gens : #ident #tyg { #body }
							impl<#params, VStore: #ident #tyg> #en #tyg for VStore {}
						});
						ctx.note("extension_traits", f.sig.ident.to_string());
					}
				}
			}
			TraitItem::Type(mut ty) => {
				ty.attrs.clear();
				if let Some(b) = ctx.db.type_attrs.get(&format!("{name}::{}", ty.ident)) {
					req.extend(b.parse::<TokenStream>().unwrap());
				} else {
					req.extend(ty.to_token_stream());
				}
			}
			o => ctx.note("errors", format!("trait item {}", o.to_token_stream())),
		}
	}
	let extra: TokenStream = ctx
		.db
		.trait_extra
		.get(&name)
		.cloned()
		.unwrap_or_default()
		.parse()
		.unwrap();
	let sup = &t.supertraits;
	let uns = &t.unsafety;
	let _ = uns;
	quote! { pub trait #ident #gens : Sized + #sup { #extra #req } #ext }
}

fn emit_impl(ctx: &mut Ctx, mut i: ItemImpl) -> TokenStream {
	if is_cfg_dropped(&i.attrs) {
		return quote!();
	}
	i.attrs.clear();
	let self_name = match &*i.self_ty {
		Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
		o => o.to_token_stream().to_string(),
	};
	let mut tr_name = String::new();
	if let Some((_, p, _)) = &i.trait_ {
		let seg = p.segments.last().unwrap();
		tr_name = seg.to_token_stream().to_string().replace(' ', "");
	}
	let key = if tr_name.is_empty() { self_name.clone() } else { format!("{self_name}::{tr_name}") };
	if ctx.db.dropped.contains_key(&key) || ctx.db.dropped.contains_key(&self_name) || ctx.db.dropped.contains_key(&format!("*::{tr_name}")) {
		ctx.note("dropped", format!("impl {key}"));
		return quote!();
	}
	if boxes::is(&self_name) {
		boxes::prepare(&mut i, &tr_name);
	}
	let free = matches!(&*i.self_ty, Type::Reference(_)).then(|| key.replace(' ', "")).filter(|k| ctx.db.inherent.contains(k));
	let inherent = ctx.db.inherent.contains(&format!("*::{tr_name}")) || ctx.db.inherent.contains(&key) || free.is_some();
	// associated types (substituted when the impl becomes inherent)
	let mut assoc: BTreeMap<String, Type> = BTreeMap::new();
	for ((_, a), t) in ctx.assoc.iter().filter(|((n, _), _)| *n == self_name) {
		assoc.insert(a.clone(), t.clone());
	}
	for it in &i.items {
		if let ImplItem::Type(t) = it {
			assoc.insert(t.ident.to_string(), t.ty.clone());
		}
	}
	let mut body = TokenStream::new();
	let had_fns = i.items.iter().any(|it| matches!(it, ImplItem::Fn(_)));
	let mut has_fns = false;
	for it in std::mem::take(&mut i.items) {
		match it {
			ImplItem::Fn(mut f) => {
				if is_cfg_dropped(&f.attrs) {
					ctx.note("dropped", format!("{self_name}::{}", f.sig.ident));
					continue;
				}
				let mut path = format!("{self_name}::{}", f.sig.ident);
				if !tr_name.is_empty() && !inherent {
					path = format!("{self_name}::{tr_name}::{}", f.sig.ident);
				}
				if inherent {
					let mut s = rules::SubstAssoc(&assoc);
					s.visit_signature_mut(&mut f.sig);
					s.visit_block_mut(&mut f.block);
					if let Some(n) = ctx.db.rename.get(&path) {
						f.sig.ident = quote::format_ident!("{}", n);
						path = format!("{self_name}::{n}");
					}
				}
				if let Some(k) = &free {
					// R8 on a reference: a free function of `vself`
					path = format!("{k}::{}", f.sig.ident);
					if let Some(n) = ctx.db.rename.get(&path) {
						f.sig.ident = quote::format_ident!("{}", n);
						path = n.clone();
					}
					let st = &i.self_ty;
					if let Some(a @ FnArg::Receiver(_)) = f.sig.inputs.first_mut() {
						*a = syn::parse_quote!(vself: #st);
					}
					rules::RenameSelf.visit_block_mut(&mut f.block);
					let own = std::mem::take(&mut f.sig.generics.params);
					f.sig.generics.params = i.generics.params.iter().cloned().chain(own).collect();
				}
				if ctx.db.dropped.contains_key(&path) {
					ctx.note("dropped", path);
					continue;
				}
				let one = rules::emit_fn(ctx, &path, f.sig, f.block, tr_name.is_empty() || inherent);
				has_fns |= !one.is_empty();
				body.extend(one);
			}
			ImplItem::Type(t) => {
				if !inherent {
					body.extend(t.to_token_stream());
				}
			}
			o => ctx.note("errors", format!("impl item {}", o.to_token_stream())),
		}
	}
	if had_fns && !has_fns && !tr_name.is_empty() {
		// a trait implementation without any function under contract
		ctx.note("dropped", format!("impl {key}"));
		return quote!();
	}
	let (gens, wh) = (&i.generics, &i.generics.where_clause);
	let st = &i.self_ty;
	let hoisted = std::mem::take(&mut ctx.db.hoisted_out);
	let h: TokenStream = hoisted.into_iter().collect();
	if free.is_some() {
		return quote!(#body #h);
	}
	if tr_name.is_empty() || inherent {
		quote!(impl #gens #st #wh { #body } #h)
	} else {
		let p = &i.trait_.as_ref().unwrap().1;
		let extra: TokenStream = ctx.db.impl_extra.get(&key).cloned().unwrap_or_default().parse().unwrap();
		quote!(#extra impl #gens #p for #st #wh { #body } #h)
	}
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let src = PathBuf::from(&args[1]);
	let cdir = PathBuf::from(&args[2]);
	let out = PathBuf::from(&args[3]);
	let rep = PathBuf::from(&args[4]);
	let mut ctx = Ctx {
		src: src.clone(),
		db: Contracts::load(&cdir),
		used: Default::default(),
		report: Default::default(),
		array_fields: Default::default(),
		slice_fns: Default::default(),
		assoc: Default::default(),
		helpers: Default::default(),
		hashes: Default::default(),
		calls: Default::default(),
		objects_out: Default::default(),
		skip: args.get(5).map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(|l| l.to_string()).collect()).unwrap_or_default(),
	};
	// canaries: an unprovable assertion at the end of each function (and of each annotated loop body), to see
	// that nothing assumed on the way there is contradictory
	if let Ok(w) = std::env::var("EXTRACT_CANARY") {
		for f in ctx.db.fns.values_mut() {
			if w == "exit" {
				f.inserts.push(("exit".into(), "proof { assert(false); }".into()));
			} else {
				for k in f.loops.keys() {
					f.inserts.push((format!("loop {k} start"), "proof { assert(false); }".into()));
				}
			}
		}
	}
	rules::collect(&mut ctx, &src);
	rules::collect_slices(&mut ctx, &src);
	let text = std::fs::read_to_string(src.join("lib.rs")).unwrap();
	let file = match syn::parse_file(&text) {
		Ok(f) => f,
		Err(e) => {
			eprintln!("parse error: {e}");
			std::process::exit(3)
		}
	};
	let body = emit_items(&mut ctx, file.items, &src, "lib");
	let exts: Vec<TokenStream> = ctx
		.report
		.get("extension_traits")
		.cloned()
		.unwrap_or_default()
		.iter()
		.map(|n| {
			let i = quote::format_ident!("Ext_{}", n);
			quote!(pub use crate::storage::#i;)
		})
		.collect();
	let mut text = String::new();
	text.push_str("// GENERATED by /verif/extract from /repo/src and /verif/contracts; do not edit.\n");
	text.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_camel_case_types, unused_unsafe, unused_assignments, unused_parens, unused_braces, unreachable_code, unused_doc_comments, unused_labels)]\n");
	text.push_str("use vstd::prelude::*;\nverus! {\n");
	text.push_str("pub mod vspec {\nuse vstd::prelude::*;\n");
	text.push_str(&print::pretty(quote!(#(#exts)*)));
	for (n, raw) in &ctx.db.prelude {
		text.push_str(&format!("// ---- {n}\n{raw}\n"));
	}
	text.push_str("}\nuse crate::vspec::*;\nbroadcast use crate::vspec::axiom_array_wf;\n");
	text.push_str(&print::pretty(body));
	let stubs = rules::stubs(&mut ctx);
	let objects = std::mem::take(&mut ctx.objects_out);
	text.push('\n');
	text.push_str(&print::pretty(quote!(#objects #stubs)));
	text.push_str("\n}\nfn main() {}\n");
	std::fs::write(&out, text).unwrap();
	let unused: Vec<String> = ctx.db.fns.keys().filter(|k| !ctx.used.contains(*k)).cloned().collect();
	for u in unused {
		ctx.note("missing_functions", u);
	}
	let mut j = String::from("{");
	for (n, (k, v)) in ctx.report.iter().enumerate() {
		if n > 0 {
			j.push(',');
		}
		j.push_str(&format!("\n {:?}: [{}]", k, v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ")));
	}
	j.push_str(",\n \"hashes\": {");
	j.push_str(&ctx.hashes.iter().map(|(k, v)| format!("{k:?}: {v:?}")).collect::<Vec<_>>().join(", "));
	j.push_str("},\n \"calls\": {");
	j.push_str(&ctx.calls.iter().map(|(k, v)| format!("{k:?}: {v:?}")).collect::<Vec<_>>().join(", "));
	j.push_str("}\n}\n");
	std::fs::write(&rep, j).unwrap();
}
