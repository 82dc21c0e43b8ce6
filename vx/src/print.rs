//! Token printer.  `vx_mark ! { N }` prints text number N; a brace group whose
//! first tokens are `vx_loopspec ! { N }` prints text N before the brace; and
//! `vx_clos ! { N body }` prints text N followed by the body block.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub texts: &'a [String],
    pub out: String,
}

fn lit_usize(t: &TokenTree) -> Option<usize> {
    t.to_string().parse().ok()
}

impl Printer<'_> {
    fn special(&self, toks: &[TokenTree], i: usize, name: &str) -> Option<Vec<TokenTree>> {
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
            (toks.get(i), toks.get(i + 1), toks.get(i + 2))
        {
            if id == name && p.as_char() == '!' {
                return Some(g.stream().into_iter().collect());
            }
        }
        None
    }

    pub fn stream(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut prev_joint = true;
        while i < toks.len() {
            if let Some(g) = self.special(&toks, i, "vx_mark") {
                let n = lit_usize(&g[0]).unwrap();
                self.out.push('\n');
                self.out.push_str(&self.texts[n].clone());
                self.out.push('\n');
                i += 3;
                if let Some(TokenTree::Punct(p)) = toks.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            if let Some(g) = self.special(&toks, i, "vx_forname") {
                self.out.push(' ');
                self.out.push_str(&format!("vx_it{}:", g[0]));
                let rest: TokenStream = g.into_iter().skip(1).collect();
                self.stream(rest);
                i += 3;
                continue;
            }
            if let Some(g) = self.special(&toks, i, "vx_clos") {
                let n = lit_usize(&g[0]).unwrap();
                self.out.push(' ');
                self.out.push_str(&self.texts[n].clone());
                self.out.push(' ');
                let rest: TokenStream = g.into_iter().skip(1).collect();
                self.stream(rest);
                i += 3;
                continue;
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let (o, c) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    let mut stream = g.stream();
                    if g.delimiter() == Delimiter::Brace {
                        if let Some(sp) = self.special(&inner, 0, "vx_loopspec") {
                            let n = lit_usize(&sp[0]).unwrap();
                            self.out.push('\n');
                            self.out.push_str(&self.texts[n].clone());
                            self.out.push('\n');
                            let mut k = 3;
                            if let Some(TokenTree::Punct(p)) = inner.get(3) {
                                if p.as_char() == ';' {
                                    k = 4;
                                }
                            }
                            stream = inner[k..].iter().cloned().collect();
                        }
                        if !prev_joint {
                            self.out.push(' ');
                        }
                        self.out.push_str(o);
                        if stream.is_empty() {
                            self.out.push_str(c);
                        } else {
                            self.out.push('\n');
                            self.stream(stream);
                            if !self.out.ends_with('\n') {
                                self.out.push('\n');
                            }
                            self.out.push_str(c);
                            self.out.push('\n');
                        }
                    } else {
                        self.out.push_str(o);
                        self.stream(stream);
                        self.out.push_str(c);
                    }
                    prev_joint = false;
                }
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    let tight = matches!(ch, ';' | ',' | '.' | '?');
                    if !tight && !prev_joint {
                        self.out.push(' ');
                    }
                    self.out.push(ch);
                    if ch == ';' {
                        self.out.push('\n');
                    }
                    prev_joint = p.spacing() == Spacing::Joint || ch == '.' || ch == '\'';
                    if ch == ';' {
                        prev_joint = true;
                    }
                }
                t => {
                    if !prev_joint && !self.out.ends_with(|c: char| c.is_whitespace() || c == '(' || c == '[') {
                        self.out.push(' ');
                    }
                    self.out.push_str(&t.to_string());
                    prev_joint = false;
                }
            }
            i += 1;
        }
    }
}

pub fn print(ts: TokenStream, texts: &[String]) -> String {
    let mut p = Printer { texts, out: String::new() };
    p.stream(ts);
    p.out
}
