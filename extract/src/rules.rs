//! The transformation rules.
//!
//! R1  visibility is widened to `pub`; attributes other than derives, and doc comments, are dropped.
//! R2  `loop { .. break e .. }` becomes `{ let b; loop { .. b = e; break; .. } b }`.
//! R3  `while let P = e { b }` and `for p in e { b }` (not over ranges) become the `loop`/`match` the
//!     reference defines them as.
//! R4  `map`, `and_then`, `map_err`, `or_else`, `ok` with a closure or constructor argument become the
//!     `match` the standard library defines them as.
//! R5  the implicit deref of a node buffer to a slice is written out (`as_slice`, `as_slice_mut`).
//! R6  `assert!(c)` becomes `if !(c) { panic!() }` (the verifier must show it unreachable).
//! R7  default methods of the storage trait move, unchanged, to one extension trait each.
//! R8  selected trait impls become inherent impls (associated types substituted).
//! R9  functions nested in a function body are hoisted to the module.
//! R11 `std::slice::Iter` (also under `Peekable`) becomes the slice iterator of the contract library.
//! R12 `transmute::<&mut X, &'a mut X>(e)` becomes `extend_lifetime(e)`, `ptr::read(e)` becomes `read_out(e)`
//!     (both with an assumed contract in the contract library).  A bare `transmute(e)` that initializes a
//!     variable declared `&mut X` is `extend_lifetime(e)` too: the compiler then checks that `e` is a `&mut X`.
//! R13 a callback parameter (`impl FnMut(A)`, by value or by mutable reference) becomes a mutable reference to
//!     an object with a `visit` method and a ghost record of its calls; `f(a)` becomes `f.visit(a)`.
//! R10 a call of a function that has no contract and is not recursive is replaced by its body, with
//!     its parameters bound by `let` (only if the body has no `return` and no `?`).
//! R14 a closure handed to such a parameter becomes an object that owns the captured variables during the call;
//!     its body is emitted as a function whose first parameters are mutable references to them.  A captured
//!     variable is recognised by the call that bound it, not by its name.
//! R15 `min` and `max` of two values become the functions on `usize` of the contract library.
//! R16 the module of the node buffer: its `IntoIter` is named `ArrayIntoIter`; a parameter
//!     `impl IntoIterator<Item = X>` is an iterator of the contract library with elements `X`.
//! R17 `self.last()`, `self.for_each(f)`, `for p in x.by_ref()`, `mem::take`, `(a..b).rev()`: std's definition.
//! R18 `&b[..n]` on the cells of the buffer, and the cast of cells to values, are calls of functions with an
//!     assumed contract (that every cell seen holds a value is their precondition); `c.write(d.assume_init_read())`
//!     reads first; `b.drain(r)` outside the buffer's module is `drain` followed by `Drain`'s destructor
//!     (`array::drain_then_drop` proves what the two leave).
//! R19 a contract `f#refuse` has the body verified a second time with `panic!`, index and (where it says so)
//!     overflow checks as allowed ways out: what it ensures holds whenever the function returns.
//! R20 `x.windows(2).all(|w| ..)` and `any`, and `for (i, p) in x.enumerate()`: the loops they are defined as.
//! R23 `ManuallyDrop<X>` is `X`, and `ManuallyDrop::drop(&mut x)` the destructor of `x`; that the field is left alone
//!     when the struct is dropped becomes the constant `by_hand_STRUCT_FIELD()`.
//! R24 (for the property about panics only, `EXTRACT_UNWIND`) in a function with `&mut self` and a comparison,
//!     `*self == *old(self)` becomes an obligation before each statement in which the comparison is called or handed
//!     on: it may panic (not in those of `Node`, which only hand `self` and the comparison to its variants').  Other
//!     obligations of this kind are the `@unwind` texts of the contracts.
//! R21 `drop_node(id)` takes the items in the node as a ghost argument, bound by the contract.
use crate::contracts::FnSpec;
use crate::Ctx;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct Helper {
	pub sig: Signature,
	pub block: Block,
	pub owner: Option<String>,
}

/// Removes imports of what is not extracted; false if nothing is left.
pub fn filter_use(t: &mut UseTree, gone: &std::collections::BTreeSet<String>) -> bool {
	match t {
		UseTree::Path(p) => filter_use(&mut p.tree, gone),
		UseTree::Group(g) => {
			let mut items: Vec<_> = g.items.iter().cloned().collect();
			items.retain_mut(|i| filter_use(i, gone));
			g.items = items.into_iter().collect();
			!g.items.is_empty()
		}
		UseTree::Name(n) => {
			let s = n.ident.to_string();
			!(s == "fmt" || s == "FusedIterator" || gone.contains(&s))
		}
		UseTree::Rename(r) => {
			let s = r.ident.to_string();
			!(s == "fmt" || s == "FusedIterator" || gone.contains(&s))
		}
		_ => true,
	}
}

/// R11 on types
pub struct IterTypes;
impl VisitMut for IterTypes {
	fn visit_type_mut(&mut self, t: &mut Type) {
		if let Type::Path(p) = t {
			let s = p.path.to_token_stream().to_string().replace(' ', "");
			if s.starts_with("std::slice::Iter<") || s.starts_with("slice::Iter<") || s.starts_with("core::slice::Iter<") {
				let a = p.path.segments.last().unwrap().arguments.clone();
				*t = parse_quote!(crate::vspec::SliceIter #a);
			} else if s.starts_with("std::iter::Peekable<") || s.starts_with("Peekable<") || s.starts_with("core::iter::Peekable<") {
				if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
					if let Some(GenericArgument::Type(x)) = a.args.first() {
						*t = x.clone();
						self.visit_type_mut(t);
						return;
					}
				}
			}
		}
		visit_mut::visit_type_mut(self, t)
	}
}

/// R23
pub struct ByHand;
pub fn by_hand(t: &Type) -> Option<Type> {
	if let Type::Path(p) = t {
		let l = p.path.segments.last()?;
		if let (true, PathArguments::AngleBracketed(a)) = (l.ident == "ManuallyDrop", &l.arguments) {
			if let Some(GenericArgument::Type(x)) = a.args.first() {
				return Some(x.clone());
			}
		}
	}
	None
}
impl VisitMut for ByHand {
	fn visit_type_mut(&mut self, t: &mut Type) {
		visit_mut::visit_type_mut(self, t);
		if let Some(x) = by_hand(t) {
			*t = x
		}
	}
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		let c = match e {
			Expr::Call(c) if c.args.len() == 1 => c,
			_ => return,
		};
		let f = c.func.to_token_stream().to_string().replace(' ', "");
		let a = &c.args[0];
		*e = match f.rsplit("::").take(2).collect::<Vec<_>>()[..] {
			["new", "ManuallyDrop"] | ["into_inner", "ManuallyDrop"] => a.clone(),
			["drop", "ManuallyDrop"] => match a {
				Expr::Reference(r) => {
					let x = &r.expr;
					parse_quote!(#x.drop())
				}
				x => parse_quote!(#x.drop()),
			},
			_ => return,
		}
	}
}

/// R16, R18 on the module of the node buffer
pub fn array_module(ctx: &mut Ctx, items: Vec<Item>) -> Vec<Item> {
	struct V;
	impl VisitMut for V {
		fn visit_path_mut(&mut self, p: &mut Path_) {
			visit_mut::visit_path_mut(self, p);
			if p.segments.len() == 1 && p.segments[0].ident == "IntoIter" {
				p.segments[0].ident = format_ident!("ArrayIntoIter");
			}
		}
		fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
			visit_mut::visit_trait_bound_mut(self, b);
			if b.path.segments.len() == 1 && b.path.segments[0].ident == "IntoIterator" {
				let s = b.path.segments[0].arguments.to_token_stream().to_string().replace(' ', "");
				if let Some(x) = s.strip_prefix("<Item=").and_then(|x| x.strip_suffix('>')) {
					let t: Type = parse_str(x).unwrap();
					b.path = parse_quote!(crate::vspec::VIter<X = #t>);
				}
			}
		}
		fn visit_use_tree_mut(&mut self, _: &mut UseTree) {}
	}
	let mut out = vec![];
	for mut i in items {
		match &mut i {
			Item::Use(u) => {
				let gone = ["MaybeUninit", "Bound", "RangeBounds", "Deref", "DerefMut", "FusedIterator"].iter().map(|s| s.to_string()).collect();
				if !filter_use(&mut u.tree, &gone) {
					continue;
				}
			}
			Item::Struct(s) => {
				for f in s.fields.iter() {
					if !matches!(f.vis, Visibility::Inherited) {
						ctx.note("errors", format!("a field of {} is visible outside the buffer's module", s.ident));
					}
				}
				if s.ident == "IntoIter" {
					s.ident = format_ident!("ArrayIntoIter");
				}
				V.visit_item_struct_mut(s);
			}
			// inherent impls are left to the names; an impl of an iterator's `Item` stays as it is
			i => V.visit_item_mut(i),
		}
		out.push(i);
	}
	out
}
type Path_ = syn::Path;

pub struct SubstAssoc<'a>(pub &'a BTreeMap<String, Type>);
impl<'a> VisitMut for SubstAssoc<'a> {
	fn visit_type_mut(&mut self, t: &mut Type) {
		if let Type::Path(p) = t {
			if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
				if let Some(r) = self.0.get(&p.path.segments[1].ident.to_string()) {
					*t = r.clone();
					return;
				}
			}
		}
		visit_mut::visit_type_mut(self, t)
	}
}

/// First pass over all sources: array fields and functions without contract.
/// names of functions all of whose versions return a slice
pub fn collect_slices(ctx: &mut Ctx, src: &std::path::Path) {
	struct V(std::collections::BTreeMap<String, bool>);
	impl<'a> syn::visit::Visit<'a> for V {
		fn visit_signature(&mut self, s: &'a Signature) {
			let yes = match &s.output {
				ReturnType::Type(_, t) => matches!(&**t, Type::Reference(r) if matches!(&*r.elem, Type::Slice(_)) && r.mutability.is_none()),
				_ => false,
			};
			let e = self.0.entry(s.ident.to_string()).or_insert(true);
			*e &= yes;
		}
	}
	fn files(p: &std::path::Path, v: &mut V) {
		for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
			let p = e.path();
			if p.is_dir() {
				files(&p, v)
			} else if p.extension().map_or(false, |x| x == "rs") {
				if let Ok(f) = syn::parse_file(&std::fs::read_to_string(&p).unwrap_or_default()) {
					syn::visit::Visit::visit_file(v, &f)
				}
			}
		}
	}
	let mut v = V(Default::default());
	files(src, &mut v);
	ctx.slice_fns = v.0.into_iter().filter(|(_, y)| *y).map(|(n, _)| n).collect();
}

pub fn collect(ctx: &mut Ctx, dir: &std::path::Path) {
	fn walk(ctx: &mut Ctx, dir: &std::path::Path) {
		for e in std::fs::read_dir(dir).unwrap() {
			let p = e.unwrap().path();
			if p.is_dir() {
				walk(ctx, &p);
			} else if p.extension().map(|e| e == "rs").unwrap_or(false) {
				let text = std::fs::read_to_string(&p).unwrap();
				if let Ok(f) = syn::parse_file(&text) {
					items(ctx, f.items, &modname(&p))
				}
			}
		}
	}
	fn modname(p: &std::path::Path) -> String {
		let s = p.file_stem().unwrap().to_string_lossy().to_string();
		if s == "mod" {
			p.parent().unwrap().file_name().unwrap().to_string_lossy().to_string()
		} else {
			s
		}
	}
	fn items(ctx: &mut Ctx, its: Vec<Item>, m: &str) {
		for i in its {
			match i {
				Item::Struct(s) => {
					for f in s.fields.iter() {
						let t = f.ty.to_token_stream().to_string();
						if t.starts_with("Array <") {
							if let Some(i) = &f.ident {
								ctx.array_fields.insert(i.to_string());
							}
						}
					}
				}
				Item::Mod(md) => {
					if let Some((_, it)) = md.content {
						items(ctx, it, &md.ident.to_string())
					}
				}
				Item::Trait(t) => {
					for it in t.items {
						if let TraitItem::Fn(TraitItemFn { sig, default: Some(b), .. }) = it {
							let path = format!("{}::{}", t.ident, sig.ident);
							add(ctx, path, sig, b, None)
						}
					}
				}
				Item::Fn(f) => {
					let path = format!("{m}::{}", f.sig.ident);
					add(ctx, path, f.sig, *f.block, None)
				}
				Item::Impl(i) => {
					if let (Some(_), Type::Path(p)) = (&i.trait_, &*i.self_ty) {
						let mut n = p.path.segments.last().unwrap().ident.to_string();
						if m == "array" && n == "IntoIter" {
							n = "ArrayIntoIter".to_string();
						}
						for it in &i.items {
							if let ImplItem::Type(t) = it {
								ctx.assoc.insert((n.clone(), t.ident.to_string()), t.ty.clone());
							}
						}
					}
					if i.trait_.is_none() {
						let n = match &*i.self_ty {
							Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
							_ => continue,
						};
						if ctx.db.dropped.contains_key(&n) {
							continue;
						}
						for it in i.items {
							if let ImplItem::Fn(f) = it {
								let path = format!("{n}::{}", f.sig.ident);
								add(ctx, path, f.sig, f.block, Some(n.clone()))
							}
						}
					}
				}
				_ => (),
			}
		}
	}
	fn add(ctx: &mut Ctx, path: String, sig: Signature, block: Block, owner: Option<String>) {
		if !ctx.db.fns.contains_key(&path) && !ctx.db.dropped.contains_key(&path) && !ctx.db.known.contains(&path) {
			ctx.helpers.insert(path, Helper { sig, block, owner });
		}
	}
	walk(ctx, dir);
	// a helper is usable only if nothing leaves it early and it does not call itself
	struct Bad(bool, String);
	impl<'a> Visit<'a> for Bad {
		fn visit_expr_return(&mut self, _: &'a ExprReturn) {
			self.0 = true
		}
		fn visit_expr_try(&mut self, _: &'a ExprTry) {
			self.0 = true
		}
		fn visit_ident(&mut self, i: &'a proc_macro2::Ident) {
			if *i == self.1 {
				self.0 = true
			}
		}
		fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
	}
	let names: Vec<String> = ctx.helpers.keys().cloned().collect();
	for n in names {
		let h = &ctx.helpers[&n];
		let mut b = Bad(false, h.sig.ident.to_string());
		b.visit_block(&h.block);
		let simple = h.sig.inputs.iter().all(|a| match a {
			FnArg::Receiver(_) => true,
			FnArg::Typed(t) => matches!(&*t.pat, Pat::Ident(_)) ,
		});
		let dup = ctx
			.helpers
			.iter()
			.filter(|(_, o)| o.sig.ident == h.sig.ident)
			.count() > 1
			|| ctx.db.fns.keys().any(|k| k.rsplit("::").next().unwrap() == h.sig.ident.to_string());
		if b.0 || !simple || dup {
			ctx.helpers.remove(&n);
		}
	}
}

fn hash(s: &str) -> String {
	let mut h: u64 = 0xcbf29ce484222325;
	for b in s.bytes() {
		h ^= b as u64;
		h = h.wrapping_mul(0x100000001b3);
	}
	format!("{h:016x}")
}

pub fn emit_sig_only(_ctx: &mut Ctx, path: &str, mut sig: Signature, sp: &FnSpec) -> TokenStream {
	name_ret(&mut sig, sp);
	let spec: TokenStream = sp.spec.parse().unwrap_or_else(|e| panic!("spec of {path}: {e}"));
	quote!(__mark!(#path) #sig #spec ;)
}

fn name_ret(sig: &mut Signature, sp: &FnSpec) {
	if let Some(r) = &sp.ret {
		let r = format_ident!("{}", r);
		match &sig.output {
			ReturnType::Type(_, t) => {
				let t = t.clone();
				sig.output = ReturnType::Type(Default::default(), Box::new(Type::Verbatim(quote!((#r : #t)))));
			}
			ReturnType::Default => {
				sig.output = ReturnType::Type(Default::default(), Box::new(Type::Verbatim(quote!((#r : ())))));
			}
		}
	}
}

pub fn emit_fn(ctx: &mut Ctx, path: &str, mut sig: Signature, mut block: Block, public: bool) -> TokenStream {
	let vis: TokenStream = if public { quote!(pub) } else { quote!() };
	let h = hash(&format!("{} {}", sig.to_token_stream(), block.to_token_stream()));
	ctx.hashes.insert(path.to_string(), h);
	let known = ctx.db.fns.contains_key(path);
	if !known && ctx.helpers.contains_key(path) {
		ctx.note("inlined_helpers", path.to_string());
		return quote!();
	}
	let sp = ctx.db.fns.get(path).cloned().unwrap_or_default();
	ctx.used.insert(path.to_string());
	let mut hoisted = TokenStream::new();
	let mut twin_fn = TokenStream::new();
	// R19: the same body once more, with a panic as an allowed way out
	let twin = format!("{path}#refuse");
	if ctx.db.fns.contains_key(&twin) {
		let mut sig = sig.clone();
		sig.ident = format_ident!("{}_refuse", sig.ident);
		twin_fn = emit_fn(ctx, &twin, sig, block.clone(), public);
		ctx.db.hoisted_out.pop();
	}
	let is_twin = path.ends_with("#refuse");
	// R9
	let mut keep = vec![];
	for s in std::mem::take(&mut block.stmts) {
		match s {
			Stmt::Item(Item::Fn(f)) => {
				let p = format!("{path}::{}", f.sig.ident);
				hoisted.extend(emit_fn(ctx, &p, f.sig, *f.block, true));
			}
			Stmt::Item(Item::Use(_)) => (),
			s => keep.push(s),
		}
	}
	block.stmts = keep;
	ctx.db.hoisted_out.push(hoisted);
	IterTypes.visit_signature_mut(&mut sig);
	IterTypes.visit_block_mut(&mut block);
	ByHand.visit_signature_mut(&mut sig);
	ByHand.visit_block_mut(&mut block);
	let mut cb = Callbacks { names: callbacks(&mut sig) };
	cb.visit_block_mut(&mut block);
	name_ret(&mut sig, &sp);
	// `mut self`: the verifier takes the receiver as it is given, a local holds it from there on
	if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
		if r.reference.is_none() && r.mutability.take().is_some() {
			RenameSelf.visit_block_mut(&mut block);
			block.stmts.insert(0, parse_quote!(let mut vself = self;));
		}
	}
	let attrs: TokenStream = sp.attrs.parse().unwrap_or_else(|e| panic!("attrs of {path}: {e}"));
	let spec: TokenStream = sp.spec.parse().unwrap_or_else(|e| panic!("spec of {path}: {e}"));
	if !known {
		ctx.note("uncontracted", path.to_string());
		return quote!();
	}
	let twins: BTreeSet<String> = if is_twin {
		ctx.db.fns.keys().filter_map(|k| Some(k.strip_suffix("#refuse")?.rsplit("::").next()?.to_string())).collect()
	} else {
		Default::default()
	};
	let mut names = BTreeSet::new();
	called(block.to_token_stream(), &mut names);
	ctx.calls.insert(path.to_string(), names.into_iter().map(|n| if twins.contains(&n) { format!("{n}#refuse") } else { n }).collect());
	let skip = ctx.skip.contains(path);
	if sp.external || skip {
		ctx.note(if skip { "skipped" } else { "assumed_contracts" }, path.to_string());
		return quote!(__mark!(#path) #[verifier::external_body] #attrs #vis #sig #spec { unimplemented!() });
	}
	ctx.note("verified_functions", path.to_string());
	for _ in 0..4 {
		let mut inl = Inline { helpers: &ctx.helpers, n: 0, done: false };
		inl.visit_block_mut(&mut block);
		if !inl.done {
			break;
		}
	}
	if crate::boxes::is(path) {
		let excl = matches!(sig.inputs.first(), Some(FnArg::Receiver(r)) if r.mutability.is_some());
		if sig.inputs.iter().any(|a| a.to_token_stream().to_string().contains("vmem")) {
			crate::boxes::Raw { excl }.visit_block_mut(&mut block);
		}
	}
	// R14
	if !sp.objects.is_empty() {
		ClosureVars.visit_block_mut(&mut block);
		for o in &sp.objects {
			for (n, from) in o.caps.iter().filter_map(|c| c.split_once('=')) {
				let mut b = BoundBy { from, name: None };
				b.visit_block(&block);
				if let Some(x) = b.name.filter(|x| x != n) {
					Renamed(x, format_ident!("{}", n)).visit_block_mut(&mut block);
				}
			}
		}
	}
	let mut ob = Objects { sp: &sp, done: BTreeMap::new(), over: false };
	ob.visit_block_mut(&mut block);
	let (done, over) = (ob.done, ob.over);
	if over {
		ctx.note("lost_anchors", format!("{path}: a closure without contract"));
	}
	for (k, o) in sp.objects.iter().enumerate() {
		let sig = parse_str::<Signature>(&o.sig).unwrap_or_else(|e| panic!("{path}: {e}"));
		let p = format!("{path}::{}", sig.ident);
		match done.get(&k) {
			Some(b) => {
				let t = emit_fn(ctx, &p, sig, b.clone(), true);
				ctx.db.hoisted_out.pop();
				ctx.objects_out.extend(t);
			}
			None => ctx.note("lost_anchors", format!("{path}: closure object {k}")),
		}
	}
	Desugar { arrays: &ctx.array_fields, slices: &ctx.slice_fns }.visit_block_mut(&mut block);
	if is_twin {
		Refuse { twins: &twins, add: sp.attrs.contains("exec_allows_no_decreases_clause") }.visit_block_mut(&mut block);
	}
	let mut bv = BreakValue { n: 0 };
	bv.visit_block_mut(&mut block);
	// numbering of calls for the anchors
	let mut num = Number::default();
	// R24
	let excl = matches!(sig.inputs.first(), Some(FnArg::Receiver(r)) if r.mutability.is_some() && r.reference.is_some());
	if crate::contracts::unwinding() && excl && !is_twin && !path.starts_with("Node::") {
		num.cmps = comparisons(&sig);
	}
	num.visit_block_mut(&mut block);
	let mut an = Annotate { path, sp: &sp, used: vec![false; sp.inserts.len()], used_loops: vec![], used_closures: vec![], open_loops: false, loops: 0, closures: 0, arms: BTreeMap::new(), errors: vec![] };
	an.block(&mut block, true);
	let mut lost = vec![];
	for (k, u) in an.used.iter().enumerate() {
		if !u {
			lost.push(format!("{path}: {}", sp.inserts[k].0));
		}
	}
	for k in sp.loops.keys() {
		if !an.used_loops.contains(k) {
			lost.push(format!("{path}: loop {k}"));
		}
	}
	if an.loops > sp.loops.len() {
		lost.push(format!("{path}: {} loops, {} with invariants", an.loops, sp.loops.len()));
	}
	for k in sp.closures.keys() {
		if !an.used_closures.contains(k) {
			lost.push(format!("{path}: closure {k}"));
		}
	}
	for l in lost {
		ctx.note("lost_anchors", l);
	}
	let open = match an.open_loops {
		true => quote!(#[verifier::loop_isolation(false)]),
		false => quote!(),
	};
	quote!(#twin_fn __mark!(#path) #open #attrs #vis #sig #spec #block)
}

/// R14
struct Objects<'a> {
	sp: &'a FnSpec,
	done: BTreeMap<usize, Block>,
	over: bool,
}
impl<'a> VisitMut for Objects<'a> {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		let m = match e {
			Expr::MethodCall(m) => m,
			_ => return,
		};
		let c = match m.args.last().map(strip_ref) {
			Some(Expr::Closure(c)) => c.clone(),
			_ => return,
		};
		if !self.sp.objects.iter().any(|o| m.method == o.callee) {
			return;
		}
		let k = match (0..self.sp.objects.len()).find(|k| m.method == self.sp.objects[*k].callee && !self.done.contains_key(k)) {
			Some(k) => k,
			None => {
				self.over = true;
				return;
			}
		};
		let o = &self.sp.objects[k];
		let mut body = *c.body.clone();
		Captured(o.caps.iter().map(|c| c.split('=').next().unwrap().to_string()).collect()).visit_expr_mut(&mut body);
		let mut b: Block = parse_quote!({ #body });
		for (n, p) in c.inputs.iter().enumerate().rev() {
			let v = format_ident!("vp{}", n);
			let p = match p {
				Pat::Type(t) => (*t.pat).clone(),
				p => p.clone(),
			};
			match &p {
				Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => Renamed(i.ident.to_string(), v).visit_block_mut(&mut b),
				p => b.stmts.insert(0, parse_quote!(let #p = #v;)),
			}
		}
		self.done.insert(k, b);
		let new: TokenStream = o.new.parse().unwrap();
		let back: TokenStream = o.back.parse().unwrap();
		*m.args.last_mut().unwrap() = parse_quote!(&mut vobj);
		let call = m.clone();
		let mut b: Block = parse_quote!({
			#call;
		});
		b.stmts.insert(0, Stmt::Expr(Expr::Verbatim(quote!(let mut vobj = #new;)), None));
		b.stmts.push(Stmt::Expr(Expr::Verbatim(back), None));
		*e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
	}
}
/// the closure itself, or a mutable reference to it
fn strip_ref(e: &Expr) -> &Expr {
	match e {
		Expr::Paren(p) => strip_ref(&p.expr),
		Expr::Reference(r) => strip_ref(&r.expr),
		e => e,
	}
}
/// a variable that holds a closure, used once: the closure stands there
struct ClosureVars;
impl VisitMut for ClosureVars {
	fn visit_block_mut(&mut self, b: &mut Block) {
		visit_mut::visit_block_mut(self, b);
		let mut k = 0;
		while k < b.stmts.len() {
			let found = match &b.stmts[k] {
				Stmt::Local(Local { pat: Pat::Ident(i), init: Some(x), .. }) if x.diverge.is_none() && matches!(&*x.expr, Expr::Closure(_)) => Some((i.ident.to_string(), (*x.expr).clone())),
				_ => None,
			};
			if let Some((n, c)) = found {
				let rest: Vec<String> = b.stmts[k + 1..].iter().map(|s| s.to_token_stream().to_string()).collect();
				let uses = rest.join(" ").split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| *w == n).count();
				if uses == 1 {
					b.stmts.remove(k);
					for s in &mut b.stmts[k..] {
						Put(&n, &c).visit_stmt_mut(s);
					}
					continue;
				}
			}
			k += 1;
		}
	}
}
struct Put<'a>(&'a str, &'a Expr);
impl<'a> VisitMut for Put<'a> {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		if let Expr::Path(p) = e {
			if p.path.get_ident().map_or(false, |i| i == self.0) {
				*e = self.1.clone();
			}
		}
	}
}
/// the variable first bound to the result of a call
struct BoundBy<'a> {
	from: &'a str,
	name: Option<String>,
}
impl<'a> BoundBy<'a> {
	fn at(&mut self, p: &Pat, e: &Expr) {
		let calls = matches!(e, Expr::MethodCall(m) if m.method == self.from);
		let mut v = vec![];
		struct Names<'b>(&'b mut Vec<String>);
		impl<'b, 'ast> Visit<'ast> for Names<'b> {
			fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
				if i.ident != "None" {
					self.0.push(i.ident.to_string())
				}
			}
		}
		Names(&mut v).visit_pat(p);
		if calls && v.len() == 1 && self.name.is_none() {
			self.name = v.pop();
		}
	}
}
impl<'a, 'ast> Visit<'ast> for BoundBy<'a> {
	fn visit_local(&mut self, l: &'ast Local) {
		if let Some(i) = &l.init {
			self.at(&l.pat, &i.expr);
		}
		visit::visit_local(self, l)
	}
	fn visit_expr_let(&mut self, l: &'ast ExprLet) {
		self.at(&l.pat, &l.expr);
		visit::visit_expr_let(self, l)
	}
	fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
		for a in &m.arms {
			self.at(&a.pat, &m.expr);
		}
		visit::visit_expr_match(self, m)
	}
}
/// a variable by another name
struct Renamed(String, Ident);
impl VisitMut for Renamed {
	fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
		if p.path.get_ident().map_or(false, |i| *i == self.0) {
			let v = &self.1;
			p.path = parse_quote!(#v);
		}
	}
	fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
		visit_mut::visit_pat_ident_mut(self, p);
		if p.ident == self.0 {
			p.ident = self.1.clone();
		}
	}
}
/// a captured variable is held by a mutable reference
struct Captured(Vec<String>);
impl VisitMut for Captured {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		if let Expr::Path(p) = e {
			if p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())) {
				*e = parse_quote!((*#p));
			}
		}
	}
}
/// the closures that found no place: their contract is only assumed
pub fn stubs(ctx: &mut Ctx) -> TokenStream {
	let mut out = TokenStream::new();
	let all: Vec<(String, String)> = ctx.db.fns.iter().flat_map(|(p, f)| f.objects.iter().map(move |o| (p.clone(), o.sig.clone()))).collect();
	for (p, sig) in all {
		let sig: Signature = parse_str(&sig).unwrap();
		let p = format!("{p}::{}", sig.ident);
		if ctx.used.contains(&p) {
			continue;
		}
		let spec: TokenStream = ctx.db.fns[&p].spec.parse().unwrap();
		out.extend(quote!(__mark!(#p) #[verifier::external_body] pub #sig #spec { unimplemented!() }));
	}
	out
}

/// R19
struct Refuse<'a> {
	twins: &'a BTreeSet<String>,
	/// the recursion has no measure in this twin: the overflow check of an addition is a panic as well
	add: bool,
}
impl<'a> VisitMut for Refuse<'a> {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		match e {
			Expr::Macro(m) if m.mac.path.is_ident("panic") => *e = parse_quote!(crate::vspec::refuse()),
			// the index check of the buffer's cells
			Expr::Index(i) if i.expr.to_token_stream().to_string().ends_with(". buffer") && !matches!(&*i.index, Expr::Range(_)) => {
				let x = &i.index;
				*i.index = parse_quote!(crate::vspec::in_bounds(#x, N));
			}
			Expr::Binary(b) if self.add && matches!(b.op, BinOp::Add(_)) => {
				let (x, y) = (&b.left, &b.right);
				*e = parse_quote!(crate::vspec::add_checked(#x, #y));
			}
			Expr::MethodCall(m) if self.twins.contains(&m.method.to_string()) => m.method = format_ident!("{}_refuse", m.method),
			_ => (),
		}
	}
	fn visit_stmt_mut(&mut self, s: &mut Stmt) {
		visit_mut::visit_stmt_mut(self, s);
		if let Stmt::Macro(m) = s {
			if m.mac.path.is_ident("panic") {
				*s = Stmt::Expr(parse_quote!(crate::vspec::refuse()), m.semi_token);
			}
		}
	}
}

/// The names called in a body: identifiers followed by an argument list.
fn called(ts: TokenStream, out: &mut BTreeSet<String>) {
	let mut last: Option<String> = None;
	for t in ts {
		match t {
			proc_macro2::TokenTree::Ident(i) => last = Some(i.to_string()),
			proc_macro2::TokenTree::Group(g) => {
				if g.delimiter() == proc_macro2::Delimiter::Parenthesis {
					if let Some(l) = last.take() {
						out.insert(l);
					}
				}
				last = None;
				called(g.stream(), out);
			}
			_ => last = None,
		}
	}
}

// ---------------------------------------------------------------- R10
struct Inline<'a> {
	helpers: &'a BTreeMap<String, Helper>,
	n: usize,
	done: bool,
}

pub struct RenameSelf;
impl VisitMut for RenameSelf {
	fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
		if i == "self" {
			*i = format_ident!("vself")
		}
	}
}

impl<'a> Inline<'a> {
	fn find(&self, name: &str) -> Option<&'a Helper> {
		self.helpers.values().find(|h| h.sig.ident == name)
	}
	fn expand(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
		let mut block = h.block.clone();
		let mut pats: Vec<TokenStream> = vec![];
		let mut exprs: Vec<TokenStream> = vec![];
		let mut args: std::collections::VecDeque<Expr> = args.into();
		for a in &h.sig.inputs {
			match a {
				FnArg::Receiver(r) => {
					let e = match &recv {
						Some(e) => e.clone(),
						None => args.pop_front()?,
					};
					RenameSelf.visit_block_mut(&mut block);
					pats.push(quote!(vself));
					let is_self = e.to_token_stream().to_string() == "self" || e.to_token_stream().to_string() == "vself";
					if r.reference.is_none() {
						exprs.push(quote!(#e))
					} else if recv.is_none() {
						exprs.push(quote!(#e))
					} else if is_self {
						if r.mutability.is_some() {
							exprs.push(quote!(&mut *#e))
						} else {
							exprs.push(quote!(&*#e))
						}
					} else if r.mutability.is_some() {
						exprs.push(quote!(&mut (#e)))
					} else {
						exprs.push(quote!(&(#e)))
					}
				}
				FnArg::Typed(t) => {
					let e = args.pop_front()?;
					let p = &t.pat;
					pats.push(quote!(#p));
					exprs.push(quote!(#e));
				}
			}
		}
		self.n += 1;
		self.done = true;
		let r: Expr = if pats.is_empty() {
			parse_quote!({ #block })
		} else if pats.len() == 1 {
			let (p, e) = (&pats[0], &exprs[0]);
			parse_quote!({ let #p = #e; #block })
		} else {
			// bind all arguments before any parameter comes into scope
			let tmp: Vec<_> = (0..pats.len()).map(|k| format_ident!("vinl{}_{}", self.n, k)).collect();
			parse_quote!({ #(let #tmp = #exprs;)* #(let #pats = #tmp;)* #block })
		};
		Some(r)
	}
}

impl<'a> VisitMut for Inline<'a> {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		let new = match e {
			Expr::MethodCall(m) => match self.find(&m.method.to_string()) {
				Some(h) if h.sig.receiver().is_some() => {
					let r = (*m.receiver).clone();
					let a = m.args.iter().cloned().collect();
					self.expand(h, Some(r), a)
				}
				_ => None,
			},
			Expr::Call(c) => match &*c.func {
				Expr::Path(p) => {
					let last = p.path.segments.last().unwrap().ident.to_string();
					match self.find(&last) {
						Some(h) => {
							let a = c.args.iter().cloned().collect();
							self.expand(h, None, a)
						}
						None => None,
					}
				}
				_ => None,
			},
			_ => None,
		};
		if let Some(n) = new {
			*e = n;
		}
	}
}

// ---------------------------------------------------------------- R3 R4 R5 R6
struct Desugar<'a> {
	arrays: &'a std::collections::BTreeSet<String>,
	slices: &'a std::collections::BTreeSet<String>,
}

impl<'a> Desugar<'a> {
	/// a call of a function that returns a slice
	fn is_slice(&self, e: &Expr) -> bool {
		match e {
			Expr::Paren(p) => self.is_slice(&p.expr),
			Expr::MethodCall(m) => m.args.is_empty() && self.slices.contains(&m.method.to_string()),
			_ => false,
		}
	}
	/// R3, R11: the iterator of a `for` loop
	fn into_iter(&self, x: &Expr) -> Expr {
		if self.is_slice(x) {
			parse_quote!(crate::vspec::slice_iter(#x))
		} else {
			parse_quote!((#x).into_iter())
		}
	}
	fn is_array(&self, e: &Expr) -> bool {
		match e {
			Expr::Field(f) => match &f.member {
				Member::Named(i) => self.arrays.contains(&i.to_string()),
				_ => false,
			},
			Expr::Paren(p) => self.is_array(&p.expr),
			_ => false,
		}
	}
	/// in a mutable place expression, make buffer indexing go through as_slice_mut
	fn place_mut(&self, e: &mut Expr) {
		match e {
			Expr::Field(f) => self.place_mut(&mut f.base),
			Expr::Paren(p) => self.place_mut(&mut p.expr),
			Expr::Index(i) => {
				if self.is_array(&i.expr) {
					let b = &i.expr;
					*i.expr = parse_quote!(#b.as_slice_mut());
				} else {
					self.place_mut(&mut i.expr)
				}
			}
			_ => (),
		}
	}
}

fn apply(f: &Expr, arg: TokenStream) -> Option<(TokenStream, TokenStream)> {
	// returns (pattern, body)
	struct Leaves(bool);
	impl<'a> Visit<'a> for Leaves {
		fn visit_expr_return(&mut self, _: &'a ExprReturn) {
			self.0 = true
		}
		fn visit_expr_try(&mut self, _: &'a ExprTry) {
			self.0 = true
		}
		fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
	}
	if let Expr::Closure(c) = f {
		let mut l = Leaves(false);
		l.visit_expr(&c.body);
		if l.0 {
			return None;
		}
	}
	match f {
		Expr::Closure(c) if c.inputs.len() == 1 => {
			let p = match &c.inputs[0] {
				Pat::Type(t) => t.pat.to_token_stream(),
				p => p.to_token_stream(),
			};
			let b = &c.body;
			Some((p, quote!(#b)))
		}
		Expr::Closure(c) if c.inputs.is_empty() => {
			let b = &c.body;
			Some((quote!(_), quote!(#b)))
		}
		Expr::Path(p) => Some((arg.clone(), quote!(#p(#arg)))),
		_ => None,
	}
}

/// R13 on parameters; the names of the callbacks
fn callbacks(sig: &mut Signature) -> BTreeSet<String> {
	let mut names = BTreeSet::new();
	for a in sig.inputs.iter_mut() {
		if let FnArg::Typed(t) = a {
			let it = match &*t.ty {
				Type::ImplTrait(i) => Some(i),
				Type::Reference(r) if r.mutability.is_some() => match &*r.elem {
					Type::ImplTrait(i) => Some(i),
					_ => None,
				},
				_ => None,
			};
			let args = it.and_then(|i| i.bounds.first()).and_then(|b| match b {
				TypeParamBound::Trait(t) => t.path.segments.last(),
				_ => None,
			});
			if let Some(s) = args.filter(|s| s.ident == "FnMut") {
				if let PathArguments::Parenthesized(p) = &s.arguments {
					if let Pat::Ident(i) = &mut *t.pat {
						i.mutability = None;
						names.insert(i.ident.to_string());
					}
					let ty: Type = if p.inputs.len() == 1 {
						let x = &p.inputs[0];
						parse_quote!(&mut impl crate::vspec::Visit<#x>)
					} else {
						parse_quote!(&mut impl crate::vspec::VisitMut<T, S>)
					};
					*t.ty = ty;
				}
			}
		}
	}
	names
}
struct Callbacks {
	names: BTreeSet<String>,
}
impl VisitMut for Callbacks {
	fn visit_local_mut(&mut self, l: &mut Local) {
		visit_mut::visit_local_mut(self, l);
		// R12 on a declaration
		if let (Pat::Type(t), Some(init)) = (&l.pat, &mut l.init) {
			if matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) {
				relabel(&mut init.expr);
			}
		}
	}
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		let is = |x: &Expr| matches!(x, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.names.contains(&i.to_string())));
		let new: Option<Expr> = match e {
			Expr::Call(c) if is(strip(&c.func)) => {
				let (f, a) = (strip(&c.func), &c.args);
				Some(parse_quote!(#f.visit(#a)))
			}
			Expr::Reference(r) if r.mutability.is_some() && is(&r.expr) => Some((*r.expr).clone()),
			_ => None,
		};
		if let Some(n) = new {
			*e = n;
		}
	}
}
/// R12: the `transmute` call an initializer consists of
fn relabel(e: &mut Expr) {
	match e {
		Expr::Unsafe(ExprUnsafe { block, .. }) | Expr::Block(ExprBlock { block, .. }) => {
			if let Some(Stmt::Expr(x, None)) = block.stmts.last_mut() {
				relabel(x)
			}
		}
		Expr::Paren(x) => relabel(&mut x.expr),
		Expr::Call(c) => {
			let f = c.func.to_token_stream().to_string().replace(' ', "");
			if f.ends_with("mem::transmute") || f == "transmute" {
				c.func = Box::new(parse_quote!(crate::vspec::extend_lifetime));
			}
		}
		_ => (),
	}
}
/// without parentheses and dereferences
fn strip(e: &Expr) -> &Expr {
	match e {
		Expr::Paren(p) => strip(&p.expr),
		Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => strip(&u.expr),
		e => e,
	}
}

/// `transmute::<&mut X, &'a mut X>`: only the lifetime changes
fn same_ref(f: &Expr) -> bool {
	if let Expr::Path(p) = f {
		if let Some(PathArguments::AngleBracketed(a)) = p.path.segments.last().map(|s| &s.arguments) {
			let t: Vec<_> = a
				.args
				.iter()
				.filter_map(|x| match x {
					GenericArgument::Type(Type::Reference(r)) if r.mutability.is_some() => Some(r.elem.to_token_stream().to_string()),
					_ => None,
				})
				.collect();
			return a.args.len() == 2 && t.len() == 2 && t[0] == t[1];
		}
	}
	false
}

impl<'a> VisitMut for Desugar<'a> {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		match e {
			Expr::Reference(r) if r.mutability.is_some() => self.place_mut(&mut r.expr),
			Expr::Assign(a) => self.place_mut(&mut a.left),
			_ => (),
		}
		visit_mut::visit_expr_mut(self, e);
		let new: Option<Expr> = match e {
			Expr::Reference(r) if cells(&r.expr).is_some() => {
				let (k, x) = cells(&r.expr).unwrap();
				let f = format_ident!("cells_{}{}", k, if r.mutability.is_some() { "_mut" } else { "" });
				match k {
					"prefix" => {
						let (i, m) = match &*r.expr {
							Expr::Index(i) => (i, &r.mutability),
							_ => unreachable!(),
						};
						let (b, n) = (&i.expr, x);
						Some(parse_quote!(crate::vspec::#f(& #m #b, #n)))
					}
					_ => Some(parse_quote!(crate::vspec::#f(#x))),
				}
			}
			Expr::MethodCall(m) if m.method == "rev" && m.args.is_empty() && range(&m.receiver).is_some() => {
				let (a, b) = range(&m.receiver).unwrap();
				Some(parse_quote!(crate::vspec::rev_range(#a, #b)))
			}
			Expr::MethodCall(m) if m.method == "last" && m.args.is_empty() && m.receiver.to_token_stream().to_string() == "self" => Some(
				parse_quote!({ let mut vlast = None; loop { match self.next() { Some(vx) => { vlast = Some(vx); } None => { break; } } } vlast }),
			),
			Expr::MethodCall(m) if m.method == "for_each" && m.args.len() == 1 && m.receiver.to_token_stream().to_string() == "self" && apply(&m.args[0], quote!(vx)).is_some() => {
				let (p, b) = apply(&m.args[0], quote!(vx)).unwrap();
				Some(parse_quote!(loop { match self.next() { Some(#p) => { #b; } None => { break; } } }))
			}
			Expr::MethodCall(m) if m.method == "write" && m.args.len() == 1 && matches!(&*m.receiver, Expr::Index(_)) && m.args[0].to_token_stream().to_string().contains("assume_init_read") => {
				// the value is read before the cell is borrowed (nothing but the cell changes in between)
				let (r, a) = (&m.receiver, &m.args[0]);
				Some(parse_quote!({ let vval = #a; #r.write(vval) }))
			}
			Expr::MethodCall(m) if m.method == "drop_node" && m.args.len() == 1 => {
				// R21
				let (r, a) = (&m.receiver, &m.args[0]);
				Some(parse_quote!(#r.drop_node(#a, Ghost(vits))))
			}
			Expr::MethodCall(m) if m.method == "drain" => {
				let (r, a) = (&m.receiver, &m.args);
				Some(parse_quote!(#r.vdrain(#a)))
			}
			Expr::MethodCall(m) if (m.method == "all" || m.method == "any") && m.args.len() == 1 && windows2(&m.receiver).is_some() && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1) => {
				// R20: the neighbours of a slice, one pair after the other
				let x = windows2(&m.receiver).unwrap();
				let x = if self.is_array(&x) { parse_quote!(#x.as_slice()) } else { x };
				match &m.args[0] {
					Expr::Closure(c) => {
						let mut b = (*c.body).clone();
						let w = match &c.inputs[0] {
							Pat::Type(t) => t.pat.to_token_stream().to_string(),
							p => p.to_token_stream().to_string(),
						};
						Pair(w).visit_expr_mut(&mut b);
						// some pair is: not every pair is not
						let not = (m.method == "any").then(|| quote!(!));
						Some(parse_quote!({
							let vw = #x;
							let mut vi: usize = 0;
							let mut vall = true;
							while vall && vi + 1 < vw.len() {
								vall = #not (#b);
								vi = vi + 1;
							}
							#not vall
						}))
					}
					_ => None,
				}
			}
			Expr::MethodCall(m) if (m.method == "min" || m.method == "max") && m.args.len() == 1 => {
				let (f, r, a) = (format_ident!("usize_{}", m.method), &m.receiver, &m.args);
				Some(parse_quote!(crate::vspec::#f(#r, #a)))
			}
			Expr::Index(i) if self.is_array(&i.expr) => {
				let (b, x) = (&i.expr, &i.index);
				Some(parse_quote!(#b.as_slice()[#x]))
			}
			Expr::Call(c) => {
				let mut ch = false;
				for a in c.args.iter_mut() {
					if let Expr::Reference(r) = a {
						if r.mutability.is_none() && self.is_array(&r.expr) {
							let b = &r.expr;
							let n: Expr = parse_quote!(#b.as_slice());
							*a = n;
							ch = true;
						}
					}
				}
				let _ = ch;
				// R12
				let f = c.func.to_token_stream().to_string().replace(' ', "");
				let one = c.args.len() == 1;
				let arg = c.args.first();
				if one && (f.ends_with("ptr::read") || f == "read") {
					Some(parse_quote!(crate::vspec::read_out(#arg)))
				} else if f == "mem::take" || f.ends_with("::mem::take") {
					// by the field; with another type the result does not compile, and the function is undecided
					let a = arg.to_token_stream().to_string();
					Some(match a.rsplit('.').next().unwrap_or("").trim() {
						"nodes" => parse_quote!(std::mem::replace(#arg, S::default())),
						"root" | "parent" | "addr" | "end" => parse_quote!(Option::take(#arg)),
						"len" => parse_quote!(std::mem::replace(#arg, 0)),
						_ => parse_quote!(crate::vspec::take(#arg)),
					})
				} else if c.args.len() == 2 && (f.ends_with("cmp::min") || f.ends_with("cmp::max")) {
					let (g, a) = (format_ident!("usize_{}", &f[f.len() - 3..]), &c.args);
					Some(parse_quote!(crate::vspec::#g(#a)))
				} else if one && f.contains("transmute") && same_ref(&c.func) {
					Some(parse_quote!(crate::vspec::extend_lifetime(#arg)))
				} else {
					None
				}
			}
			Expr::MethodCall(m) => {
				let name = m.method.to_string();
				let r = &m.receiver;
				if name == "as_ref" && m.args.is_empty() && self.is_array(r) {
					Some(parse_quote!(#r.as_slice()))
				} else if name == "iter" && m.args.is_empty() && (self.is_array(r) || self.is_slice(r) || r.to_token_stream().to_string().ends_with(". as_slice ()")) {
					if self.is_array(r) {
						Some(parse_quote!(crate::vspec::slice_iter(#r.as_slice())))
					} else {
						Some(parse_quote!(crate::vspec::slice_iter(#r)))
					}
				} else if m.args.len() == 1 {
					let f = &m.args[0];
					match name.as_str() {
						"map" => apply(f, quote!(vx)).map(|(p, b)| parse_quote!(match #r { Some(#p) => Some(#b), None => None })),
						"and_then" => apply(f, quote!(vx)).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => None })),
						"map_err" => apply(f, quote!(vx)).map(|(p, b)| parse_quote!(match #r { Ok(vok) => Ok(vok), Err(#p) => Err(#b) })),
						"or_else" => apply(f, quote!(_)).map(|(_, b)| parse_quote!(match #r { Some(vsome) => Some(vsome), None => #b })),
						"unwrap_or_else" => apply(f, quote!(_)).map(|(_, b)| parse_quote!(match #r { Some(vsome) => vsome, None => #b })),
						"is_some_and" => apply(f, quote!(vx)).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => false })),
						_ => None,
					}
				} else if m.args.len() == 2 && name == "map_or" {
					let d = &m.args[0];
					apply(&m.args[1], quote!(vx)).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => #d }))
				} else if name == "ok" && m.args.is_empty() {
					Some(parse_quote!(match #r { Ok(vok) => Some(vok), Err(_) => None }))
				} else {
					None
				}
			}
			Expr::Macro(m) => mac(&m.mac),
			Expr::While(w) => match &*w.cond {
				Expr::Let(l) => {
					let (p, x, b, lb) = (&l.pat, &l.expr, &w.body, &w.label);
					Some(parse_quote!(#lb loop { match #x { #p => #b, _ => { break; } } }))
				}
				_ => None,
			},
			Expr::ForLoop(f) => match &*f.expr {
				Expr::Range(_) => None,
				Expr::MethodCall(m) if m.method == "by_ref" && m.args.is_empty() => {
					let (p, b, lb, r) = (&f.pat, &f.body, &f.label, &m.receiver);
					Some(parse_quote!(#lb loop { match #r.next() { Some(#p) => #b, None => { break; } } }))
				}
				// R20: counted turns
				Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() && matches!(&*f.pat, Pat::Tuple(t) if t.elems.len() == 2) => {
					let (i, p) = match &*f.pat {
						Pat::Tuple(t) => (&t.elems[0], &t.elems[1]),
						_ => unreachable!(),
					};
					let (b, lb) = (&f.body, &f.label);
					let x = self.into_iter(&m.receiver);
					Some(parse_quote!({
						let mut vcount: usize = 0;
						let mut viter = #x;
						#lb loop { match viter.next() { Some(#p) => { let #i = vcount; vcount = vcount + 1; #b } None => { break; } } }
					}))
				}
				x => {
					let (p, b, lb) = (&f.pat, &f.body, &f.label);
					let x = self.into_iter(x);
					Some(parse_quote!({ let mut viter = #x; #lb loop { match viter.next() { Some(#p) => #b, None => { break; } } } }))
				}
			},
			_ => None,
		};
		if let Some(n) = new {
			*e = n
		}
	}
	fn visit_stmt_mut(&mut self, s: &mut Stmt) {
		if let Stmt::Macro(m) = s {
			if let Some(mut e) = mac(&m.mac) {
				self.visit_expr_mut(&mut e);
				*s = Stmt::Expr(e, None);
				return;
			}
		}
		visit_mut::visit_stmt_mut(self, s)
	}
}

/// R18: a view of the first cells of the buffer; the cast of initialised cells to their values
fn cells(e: &Expr) -> Option<(&'static str, Expr)> {
	match e {
		Expr::Paren(p) => cells(&p.expr),
		Expr::Index(i) => match &*i.index {
			Expr::Range(ExprRange { start: None, limits: RangeLimits::HalfOpen(_), end: Some(n), .. }) => Some(("prefix", (**n).clone())),
			_ => None,
		},
		Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
			let mut x = &**expr;
			while let Expr::Paren(p) = x {
				x = &p.expr;
			}
			let (x, to) = match x {
				Expr::Cast(c) => (&*c.expr, c.ty.to_token_stream().to_string().replace(' ', "")),
				_ => return None,
			};
			let (x, from) = match x {
				Expr::Cast(c) => (&*c.expr, c.ty.to_token_stream().to_string().replace(' ', "")),
				_ => return None,
			};
			let strip = |t: &str| Some(t.strip_prefix("*const[").or(t.strip_prefix("*mut["))?.strip_suffix(']')?.to_string());
			let (to, from) = (strip(&to)?, strip(&from)?);
			(from == format!("MaybeUninit<{to}>")).then(|| ("as_slice", x.clone()))
		}
		_ => None,
	}
}
fn range(e: &Expr) -> Option<(Expr, Expr)> {
	match e {
		Expr::Paren(p) => range(&p.expr),
		Expr::Range(ExprRange { start: Some(a), limits: RangeLimits::HalfOpen(_), end: Some(b), .. }) => Some(((**a).clone(), (**b).clone())),
		_ => None,
	}
}

/// R20: the receiver of `windows(2)`
fn windows2(e: &Expr) -> Option<Expr> {
	match e {
		Expr::Paren(p) => windows2(&p.expr),
		Expr::MethodCall(m) if m.method == "windows" && m.args.len() == 1 && m.args[0].to_token_stream().to_string() == "2" => Some((*m.receiver).clone()),
		_ => None,
	}
}
/// `w[k]` -> `vw[vi + k]`
struct Pair(String);
impl VisitMut for Pair {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		if let Expr::Index(i) = e {
			if i.expr.to_token_stream().to_string() == self.0 {
				let k = &i.index;
				*e = parse_quote!(vw[vi + #k]);
			}
		}
	}
}

fn mac(m: &Macro) -> Option<Expr> {
	let n = m.path.segments.last().unwrap().ident.to_string();
	let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
	match n.as_str() {
		"assert" | "debug_assert" => {
			let a = args()?;
			let c = a.first()?;
			Some(parse_quote!(if !(#c) { panic!("assertion failed") }))
		}
		"assert_eq" | "debug_assert_eq" => {
			let a = args()?;
			let (x, y) = (a.get(0)?, a.get(1)?);
			Some(parse_quote!(if !(#x == #y) { panic!("assertion failed") }))
		}
		"matches" => {
			let (e, p, g) = m
				.parse_body_with(|i: parse::ParseStream| {
					let e: Expr = i.parse()?;
					i.parse::<Token![,]>()?;
					let p = Pat::parse_multi_with_leading_vert(i)?;
					let g = match i.parse::<Option<Token![if]>>()? {
						Some(_) => Some(i.parse::<Expr>()?),
						None => None,
					};
					i.parse::<Option<Token![,]>>()?;
					Ok((e, p, g))
				})
				.ok()?;
			let g = g.map(|g| quote!(if #g));
			Some(parse_quote!(match #e { #p #g => true, _ => false }))
		}
		"unreachable" | "todo" | "unimplemented" => Some(parse_quote!(panic!("unreachable"))),
		_ => None,
	}
}

// ---------------------------------------------------------------- R2
struct BreakValue {
	n: usize,
}
struct BreakSubst {
	depth: usize,
	label: Option<String>,
	name: proc_macro2::Ident,
	hit: bool,
}
impl VisitMut for BreakSubst {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		match e {
			Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
				self.depth += 1;
				visit_mut::visit_expr_mut(self, e);
				self.depth -= 1;
			}
			Expr::Closure(_) => (),
			_ => {
				visit_mut::visit_expr_mut(self, e);
				if let Expr::Break(b) = e {
					let mine = match &b.label {
						None => self.depth == 0,
						Some(l) => Some(l.ident.to_string()) == self.label,
					};
					if mine {
						if let Some(v) = b.expr.take() {
							let (n, l) = (&self.name, &b.label);
							self.hit = true;
							*e = parse_quote!({ #n = #v; break #l; });
						}
					}
				}
			}
		}
	}
}
impl VisitMut for BreakValue {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		if let Expr::Loop(l) = e {
			let name = format_ident!("vbrk{}", self.n);
			let mut s = BreakSubst { depth: 0, label: l.label.as_ref().map(|l| l.name.ident.to_string()), name: name.clone(), hit: false };
			s.visit_block_mut(&mut l.body);
			if s.hit {
				self.n += 1;
				visit_mut::visit_block_mut(self, &mut l.body);
				let l2 = l.clone();
				*e = parse_quote!({ let #name; #l2 #name });
				return;
			}
		}
		visit_mut::visit_expr_mut(self, e)
	}
}

// ---------------------------------------------------------------- anchors
#[derive(Default)]
struct Number {
	calls: BTreeMap<String, usize>,
	/// R24: the comparison parameters
	cmps: BTreeSet<String>,
}
/// does the expression mention one of the names
fn mentions(t: TokenStream, names: &BTreeSet<String>) -> bool {
	t.into_iter().any(|t| match t {
		proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string()),
		proc_macro2::TokenTree::Group(g) => mentions(g.stream(), names),
		_ => false,
	})
}
/// the parameters that are comparisons
fn comparisons(sig: &Signature) -> BTreeSet<String> {
	let mut out = BTreeSet::new();
	for a in &sig.inputs {
		if let FnArg::Typed(t) = a {
			let ty = t.ty.to_token_stream().to_string();
			if let (Pat::Ident(i), true) = (&*t.pat, ty.contains("Fn") && ty.ends_with("Ordering")) {
				out.insert(i.ident.to_string());
			}
		}
	}
	out
}
impl Number {
	fn tag(&mut self, name: String) -> Attribute {
		let k = self.calls.entry(name.clone()).or_default();
		let s = format!("{name}#{k}");
		*k += 1;
		parse_quote!(#[vcall(#s)])
	}
}
impl VisitMut for Number {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		match e {
			Expr::MethodCall(m) => {
				let a = self.tag(format!("call {}", m.method));
				m.attrs.push(a);
				if m.args.iter().any(|a| mentions(a.to_token_stream(), &self.cmps)) {
					let a = self.tag("comparing".into());
					m.attrs.push(a)
				}
			}
			Expr::Call(c) => {
				if !self.cmps.is_empty() && mentions(c.to_token_stream(), &self.cmps) {
					let a = self.tag("comparing".into());
					c.attrs.push(a)
				}
				if let Expr::Path(p) = &*c.func {
					let a = self.tag(format!("call {}", p.path.segments.last().unwrap().ident));
					c.attrs.push(a)
				}
			}
			Expr::Break(b) => {
				let a = self.tag("break".into());
				b.attrs.push(a)
			}
			Expr::Return(b) => {
				let a = self.tag("return".into());
				b.attrs.push(a)
			}
			Expr::Assign(b) => {
				let l = b.left.to_token_stream().to_string().replace(' ', "").replace("vself", "self");
				let a = self.tag(format!("assign {l}"));
				b.attrs.push(a)
			}
			_ => (),
		}
		visit_mut::visit_expr_mut(self, e)
	}
	fn visit_local_mut(&mut self, l: &mut Local) {
		let n = match &l.pat {
			Pat::Ident(i) => Some(i.ident.to_string()),
			Pat::Type(t) => match &*t.pat {
				Pat::Ident(i) => Some(i.ident.to_string()),
				_ => None,
			},
			p => Some(p.to_token_stream().to_string().replace(' ', "")),
		};
		if let Some(n) = n {
			let a = self.tag(format!("let {n}"));
			l.attrs.push(a)
		}
		visit_mut::visit_local_mut(self, l)
	}
}

struct Take(Vec<String>);
impl VisitMut for Take {
	fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
		a.retain(|x| {
			if x.path().is_ident("vcall") {
				let l: LitStr = x.parse_args().unwrap();
				self.0.push(l.value());
				false
			} else {
				true
			}
		})
	}
}

struct Annotate<'a> {
	path: &'a str,
	sp: &'a FnSpec,
	used: Vec<bool>,
	used_loops: Vec<usize>,
	/// a loop lost its `ensures`: what holds before the loop must be known at the `return` in it
	open_loops: bool,
	used_closures: Vec<usize>,
	loops: usize,
	closures: usize,
	arms: BTreeMap<String, usize>,
	errors: Vec<String>,
}

impl<'a> Annotate<'a> {
	fn get(&mut self, key: &str) -> Vec<Stmt> {
		let mut out = vec![];
		if key.starts_with("before comparing#") {
			out.push(Stmt::Expr(Expr::Verbatim(quote!(assert(*self == *old(self));)), None));
		}
		for (k, (a, t)) in self.sp.inserts.iter().enumerate() {
			// `#*`: at each of them
			if a == key || a.strip_suffix("#*").is_some_and(|a| key.rsplit_once('#').is_some_and(|(x, _)| x == a)) {
				self.used[k] = true;
				let ts: TokenStream = t.parse().unwrap_or_else(|e| panic!("{} at {a}: {e}", self.path));
				out.push(Stmt::Expr(Expr::Verbatim(ts), None));
			}
		}
		out
	}
	fn block(&mut self, b: &mut Block, top: bool) {
		let mut out: Vec<Stmt> = vec![];
		if top {
			out.extend(self.get("entry"));
		}
		let n = b.stmts.len();
		for (k, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
			self.stmt(&mut s);
			let mut t = Take(vec![]);
			t.visit_stmt_mut(&mut s);
			let mut after = vec![];
			for tag in &t.0 {
				out.extend(self.get(&format!("before {tag}")));
				after.extend(self.get(&format!("after {tag}")));
			}
			let is_tail = k + 1 == n && matches!(&s, Stmt::Expr(_, None));
			if is_tail && top {
				out.extend(self.get("tail"));
				after.extend(self.get("exit"));
			}
			if after.is_empty() {
				out.push(s);
			} else if is_tail {
				let e = match s {
					Stmt::Expr(e, None) => e,
					_ => unreachable!(),
				};
				let name = if top { self.sp.ret.clone().unwrap_or("vtail".into()) } else { "vtail".into() };
				let id = format_ident!("{}", name);
				// not parsed again: `e` may hold proof text
				let mut l: Stmt = parse_quote!(let #id = 0;);
				if let Stmt::Local(Local { init: Some(i), .. }) = &mut l {
					i.expr = Box::new(e);
				}
				out.push(l);
				out.extend(after);
				out.push(Stmt::Expr(parse_quote!(#id), None));
			} else {
				if let Stmt::Expr(_, semi @ None) = &mut s {
					*semi = Some(Default::default());
				}
				out.push(s);
				out.extend(after);
			}
		}
		if top {
			// a function without tail expression
			out_extend_exit(self, &mut out);
		}
		b.stmts = out;
	}
	fn stmt(&mut self, s: &mut Stmt) {
		match s {
			Stmt::Local(l) => {
				if let Some(i) = &mut l.init {
					self.expr(&mut i.expr);
					if let Some((_, d)) = &mut i.diverge {
						self.expr(d)
					}
				}
			}
			Stmt::Expr(e, _) => self.expr(e),
			_ => (),
		}
	}
	fn expr(&mut self, e: &mut Expr) {
		struct V<'b, 'a>(&'b mut Annotate<'a>);
		impl<'b, 'a> VisitMut for V<'b, 'a> {
			fn visit_expr_mut(&mut self, e: &mut Expr) {
				self.0.expr(e)
			}
			fn visit_block_mut(&mut self, b: &mut Block) {
				self.0.block(b, false)
			}
			fn visit_stmt_mut(&mut self, s: &mut Stmt) {
				self.0.stmt(s)
			}
		}
		match e {
			Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
				let k = self.loops;
				self.loops += 1;
				let inv: TokenStream = match self.sp.loops.get(&k) {
					Some(t) => {
						self.used_loops.push(k);
						// a loop that is left by `return` only has no end to describe
						let mut t = t.clone();
						if let (Expr::Loop(l), Some(v)) = (&*e, t.find("vbrk")) {
							let name: String = t[v..].chars().take_while(|c| c.is_alphanumeric()).collect();
							let assigned = l.body.to_token_stream().to_string().contains(&format!("{name} ="));
							if let (false, Some(a)) = (assigned, t.find("ensures")) {
								let z = t[a..].find("decreases").map(|d| a + d).unwrap_or(t.len());
								t.replace_range(a..z, "");
								t = t.replace("invariant_except_break", "invariant");
								self.open_loops = true;
							}
						}
						let v = match &*e {
							Expr::ForLoop(ExprForLoop { pat, .. }) if matches!(&**pat, Pat::Ident(_)) => pat.to_token_stream().to_string(),
							_ => "vlost".to_string(),
						};
						t.replace("$v", &v).parse().unwrap_or_else(|e| panic!("{} loop {k}: {e}", self.path))
					}
					None => quote!(),
				};
				let pre = self.get(&format!("loop {k} pre"));
				let start = self.get(&format!("loop {k} start"));
				let end = self.get(&format!("loop {k} end"));
				let wrap = |me: &mut Self, b: &mut Block| {
					me.block(b, false);
					let mut v = start.clone();
					v.append(&mut b.stmts);
					if !end.is_empty() {
						if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
							*semi = Some(Default::default());
						}
						v.extend(end.clone());
					}
					b.stmts = v;
				};
				let ts = match e {
					Expr::Loop(l) => {
						wrap(self, &mut l.body);
						let (lb, b) = (&l.label, &l.body);
						quote!(#lb loop #inv #b)
					}
					Expr::While(l) => {
						self.expr(&mut l.cond);
						let mut t = Take(vec![]);
						t.visit_expr_mut(&mut l.cond);
						wrap(self, &mut l.body);
						let (lb, c, b) = (&l.label, &l.cond, &l.body);
						quote!(#lb while #c #inv #b)
					}
					Expr::ForLoop(l) => {
						self.expr(&mut l.expr);
						let mut t = Take(vec![]);
						t.visit_expr_mut(&mut l.expr);
						wrap(self, &mut l.body);
						let (lb, p, x, b) = (&l.label, &l.pat, &l.expr, &l.body);
						// `vit` counts the turns
						let it = if inv.to_string().contains("vit") { quote!(vit:) } else { quote!() };
						quote!(#lb for #p in #it #x #inv #b)
					}
					_ => unreachable!(),
				};
				*e = Expr::Verbatim(if pre.is_empty() { ts } else { quote!({ #(#pre)* #ts }) });
			}
			Expr::Closure(c) => {
				let k = self.closures;
				self.closures += 1;
				self.expr(&mut c.body);
				if let Some(t) = self.sp.closures.get(&k) {
					self.used_closures.push(k);
					let mut tk = Take(vec![]);
					tk.visit_expr_mut(&mut c.body);
					let mut t = t.clone();
					for (k, p) in c.inputs.iter().enumerate() {
						let p = match p {
							Pat::Type(t) => t.pat.to_token_stream().to_string(),
							p => p.to_token_stream().to_string(),
						};
						t = t.replace(&format!("${k}"), &p);
					}
					let h: TokenStream = t.parse().unwrap_or_else(|e| panic!("{} closure {k}: {e}", self.path));
					let b = &c.body;
					*e = Expr::Verbatim(quote!(#h { #b }));
				}
			}
			Expr::Match(m) => {
				self.expr(&mut m.expr);
				for a in m.arms.iter_mut() {
					let p = a.pat.to_token_stream().to_string().replace(' ', "");
					let k = self.arms.entry(p.clone()).or_default();
					let key = format!("arm {p}#{k}");
					*k += 1;
					let ins = self.get(&key);
					if let Some((_, g)) = &mut a.guard {
						self.expr(g)
					}
					// an arm body that is not a block becomes one, so that anchors inside stay local
					if !matches!(&*a.body, Expr::Block(_)) && !matches!(&*a.body, Expr::Verbatim(_)) {
						let b = &a.body;
						*a.body = parse_quote!({ #b });
					}
					self.expr(&mut a.body);
					if !ins.is_empty() {
						let b = &a.body;
						*a.body = Expr::Verbatim(quote!({ #(#ins)* #b }));
					}
				}
			}
			_ => visit_mut::visit_expr_mut(&mut V(self), e),
		}
	}
}

fn out_extend_exit(a: &mut Annotate, out: &mut Vec<Stmt>) {
	let has_tail = matches!(out.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Verbatim(_)));
	if !has_tail {
		out.extend(a.get("exit"));
	}
}
