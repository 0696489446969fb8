//! R22 the boxed storage.  The functions never look into a node, so `Node<T, _>` becomes the type parameter `T`; the
//!     trait implementations become inherent functions (R8) with one more ghost argument, the boxes that the storage
//!     owns.  `NonNull` is the contract library's; `Box::into_raw`, `Box::leak`, `Box::from_raw`, `&*p` and `&mut *p`
//!     of a raw pointer become functions with an assumed contract on those boxes.
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::VisitMut;
use syn::*;

pub const TYPES: [&str; 3] = ["BoxStorage", "BoxPtr", "BoxDrop"];
pub fn is(path: &str) -> bool {
	TYPES.iter().any(|t| path == *t || path.starts_with(&format!("{t}::")))
}

pub struct Opaque;
impl VisitMut for Opaque {
	fn visit_type_mut(&mut self, t: &mut Type) {
		if let Type::Path(p) = t {
			let l = p.path.segments.last().unwrap();
			if l.ident == "Node" && p.qself.is_none() {
				if let PathArguments::AngleBracketed(a) = &l.arguments {
					if a.args.len() == 2 && a.args[0].to_token_stream().to_string() == "T" {
						*t = parse_quote!(T);
						return;
					}
				}
			}
		}
		visit_mut::visit_type_mut(self, t)
	}
	fn visit_path_mut(&mut self, p: &mut Path) {
		visit_mut::visit_path_mut(self, p);
		let k = p.segments.iter().position(|s| s.ident == "NonNull");
		if let Some(k) = k {
			let rest: Vec<_> = p.segments.iter().skip(k).cloned().collect();
			let rest: punctuated::Punctuated<PathSegment, Token![::]> = rest.into_iter().collect();
			*p = Path { leading_colon: None, segments: parse_quote!(crate::vspec::#rest) };
		}
	}
}

/// before the functions are emitted
pub fn prepare(i: &mut ItemImpl, tr: &str) {
	Opaque.visit_item_impl_mut(i);
	let memory = tr.starts_with("Storage") || tr.starts_with("Dropper");
	if !memory {
		return;
	}
	let own: Vec<GenericParam> = i.generics.params.iter().cloned().collect();
	i.generics.params.clear();
	for it in i.items.iter_mut() {
		if let ImplItem::Fn(f) = it {
			let sig = &mut f.sig;
			sig.unsafety = None;
			sig.generics.params.insert(0, parse_quote!('vm));
			sig.generics.params.extend(own.iter().cloned());
			let lt: Lifetime = parse_quote!('vm);
			let mut excl = false;
			if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
				excl = r.mutability.is_some();
				if let Some((_, l)) = &mut r.reference {
					*l = Some(lt.clone());
					let t: Type = if excl { parse_quote!(&'vm mut Self) } else { parse_quote!(&'vm Self) };
					*r.ty = t;
				}
			}
			if let ReturnType::Type(_, t) = &mut sig.output {
				if let Type::Reference(r) = &mut **t {
					r.lifetime = Some(lt);
				}
			}
			sig.inputs.push(if excl {
				parse_quote!(Tracked(vmem): Tracked<&'vm mut Mem<T>>)
			} else {
				parse_quote!(Tracked(vmem): Tracked<&'vm Mem<T>>)
			});
		}
	}
}

fn place(e: &Expr) -> bool {
	match e {
		Expr::Path(_) => true,
		Expr::Field(f) => place(&f.base),
		_ => false,
	}
}

/// in a body
pub struct Raw {
	pub excl: bool,
}
impl Raw {
	fn call(&self, f: &str, x: &Expr, want_mut: bool) -> Expr {
		let f = format_ident!("{}", f);
		let m = if self.excl && want_mut { quote!(&mut *vmem) } else { quote!(&*vmem) };
		parse_quote!(crate::vspec::#f(#x, Tracked(#m)))
	}
}
impl VisitMut for Raw {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		visit_mut::visit_expr_mut(self, e);
		let new = match e {
			Expr::Call(c) if c.args.len() == 1 => {
				let f = c.func.to_token_stream().to_string().replace(' ', "");
				let a = &c.args[0];
				match f.rsplit("::").take(2).collect::<Vec<_>>()[..] {
					["into_raw", b] if b.starts_with("Box") => Some(self.call("box_into_raw", a, true)),
					["leak", b] if b.starts_with("Box") => Some(self.call("box_into_raw", a, true)),
					["from_raw", b] if b.starts_with("Box") => Some(self.call("box_from_raw", a, true)),
					["read", "ptr"] => Some(self.call("raw_read", a, true)),
					["drop_in_place", "ptr"] => Some(self.call("raw_drop", a, true)),
					_ => None,
				}
			}
			Expr::Reference(r) => match &*r.expr {
				Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
					let m = r.mutability.is_some();
					Some(self.call(if m { "raw_mut" } else { "raw_ref" }, expr, m))
				}
				_ => None,
			},
			Expr::MethodCall(m) if m.args.is_empty() && (m.method == "as_ref" || m.method == "as_mut") && place(&m.receiver) => {
				let r = &m.receiver;
				let p: Expr = parse_quote!(#r.as_ptr());
				let x = m.method == "as_mut";
				Some(self.call(if x { "raw_mut" } else { "raw_ref" }, &p, x))
			}
			_ => None,
		};
		if let Some(n) = new {
			*e = n
		}
	}
}
