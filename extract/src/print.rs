//! Token printer: one statement, clause or brace per line, no reliance on rustfmt.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn pretty(ts: TokenStream) -> String {
	let mut p = P { out: String::new(), ind: 0, bol: true, glue: true };
	p.stream(ts, true);
	p.out
}

struct P {
	out: String,
	ind: usize,
	bol: bool,
	glue: bool,
}

impl P {
	fn nl(&mut self) {
		if !self.bol {
			self.out.push('\n');
			self.bol = true;
		}
	}
	fn word(&mut self, s: &str) {
		if self.bol {
			for _ in 0..self.ind {
				self.out.push_str("  ");
			}
			self.bol = false;
		} else if !self.glue {
			self.out.push(' ');
		}
		self.out.push_str(s);
		self.glue = false;
	}
	fn stream(&mut self, ts: TokenStream, lines: bool) {
		let toks: Vec<TokenTree> = ts.into_iter().collect();
		let mut k = 0;
		while k < toks.len() {
			// __mark!("path")  ->  //@FN path
			if let TokenTree::Ident(i) = &toks[k] {
				if i == "__mark" {
					if let Some(TokenTree::Group(g)) = toks.get(k + 2) {
						let s = g.stream().to_string();
						self.nl();
						self.word(&format!("//@FN {}", s.trim_matches('"')));
						self.nl();
						k += 3;
						if let Some(TokenTree::Punct(p)) = toks.get(k) {
							if p.as_char() == ';' {
								k += 1;
							}
						}
						continue;
					}
				}
				let s = i.to_string();
				if lines && ["requires", "ensures", "decreases", "invariant", "invariant_except_break", "recommends", "returns", "assert", "proof"].contains(&s.as_str()) {
					self.nl();
				}
			}
			match &toks[k] {
				TokenTree::Group(g) => match g.delimiter() {
					Delimiter::Brace => {
						self.word("{");
						self.ind += 1;
						self.nl();
						self.stream(g.stream(), true);
						self.ind -= 1;
						self.nl();
						self.word("}");
						let cont = match toks.get(k + 1) {
							Some(TokenTree::Ident(i)) => i == "else",
							Some(TokenTree::Punct(_)) => true,
							_ => false,
						};
						if lines && !cont {
							self.nl();
						}
					}
					Delimiter::Parenthesis => {
						self.word("(");
						self.glue = true;
						self.stream(g.stream(), false);
						self.glue = true;
						self.word(")");
					}
					Delimiter::Bracket => {
						self.word("[");
						self.glue = true;
						self.stream(g.stream(), false);
						self.glue = true;
						self.word("]");
					}
					Delimiter::None => self.stream(g.stream(), false),
				},
				TokenTree::Punct(p) => {
					let c = p.as_char();
					if c == '.' || c == ';' || c == ',' || c == '?' {
						if !(c == '.' && false) {
							self.glue = true;
						}
					}
					self.word(&c.to_string());
					if p.spacing() == Spacing::Joint || c == '\'' {
						self.glue = true;
					}
					if c == '.' {
						self.glue = true;
					}
					if lines && (c == ';' || c == ',') {
						self.nl();
					}
				}
				TokenTree::Ident(i) => self.word(&i.to_string()),
				TokenTree::Literal(l) => self.word(&l.to_string()),
			}
			k += 1;
		}
	}
}
