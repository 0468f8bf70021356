//! Token printer. `__raw!("text")` prints the text, `__tok!{..}` prints the tokens inside,
//! and a brace group starting with `__spec!("text");` prints the text before the brace.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer {
    pub out: String,
    indent: usize,
    bol: bool,
    glue: bool,
}

fn lit_str(t: &TokenTree) -> String {
    let l: syn::LitStr = syn::parse2(t.clone().into()).expect("string literal");
    l.value()
}

impl Printer {
    pub fn new() -> Self {
        Printer { out: String::new(), indent: 0, bol: true, glue: true }
    }
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.bol = true;
        }
        self.glue = true;
    }
    fn word(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.indent {
                self.out.push_str("  ");
            }
            self.bol = false;
        } else if !self.glue {
            self.out.push(' ');
        }
        self.glue = false;
        self.out.push_str(s);
    }
    pub fn raw(&mut self, s: &str) {
        self.nl();
        self.out.push_str(s);
        if !s.ends_with('\n') {
            self.out.push('\n');
        }
        self.bol = true;
        self.glue = true;
    }
    pub fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // marker macros
            if let TokenTree::Ident(id) = &v[i] {
                let name = id.to_string();
                if (name == "__raw" || name == "__tok") && i + 2 < v.len() {
                    if let (TokenTree::Punct(p), TokenTree::Group(g)) = (&v[i + 1], &v[i + 2]) {
                        if p.as_char() == '!' {
                            if name == "__raw" {
                                let t = g.stream().into_iter().next().unwrap();
                                let s = lit_str(&t);
                                self.raw(&s);
                            } else {
                                self.stream(g.stream());
                            }
                            i += 3;
                            // statement macro: swallow the semicolon of __raw
                            if name == "__raw" && i < v.len() {
                                if let TokenTree::Punct(p) = &v[i] {
                                    if p.as_char() == ';' {
                                        i += 1;
                                    }
                                }
                            }
                            continue;
                        }
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => self.group(g),
                TokenTree::Ident(id) => self.word(&id.to_string()),
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.word(&c.to_string());
                    if p.spacing() == Spacing::Joint || c == '\'' {
                        self.glue = true;
                    }
                    if c == ';' {
                        self.nl();
                    }
                }
            }
            i += 1;
        }
    }
    fn group(&mut self, g: &proc_macro2::Group) {
        let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
        match g.delimiter() {
            Delimiter::Brace => {
                // __spec!("..");
                loop {
                    if inner.len() >= 3 {
                        if let (TokenTree::Ident(id), TokenTree::Punct(_), TokenTree::Group(a)) =
                            (&inner[0], &inner[1], &inner[2])
                        {
                            if *id == "__spec" {
                                let s = lit_str(&a.stream().into_iter().next().unwrap());
                                self.raw(&s);
                                let mut n = 3;
                                if let Some(TokenTree::Punct(p)) = inner.get(3) {
                                    if p.as_char() == ';' {
                                        n = 4;
                                    }
                                }
                                inner.drain(..n);
                                continue;
                            }
                        }
                    }
                    break;
                }
                self.word("{");
                self.indent += 1;
                self.nl();
                self.stream(inner.into_iter().collect());
                self.indent -= 1;
                self.nl();
                self.word("}");
                self.nl();
            }
            Delimiter::Parenthesis => {
                self.word("(");
                self.glue = true;
                self.stream(inner.into_iter().collect());
                self.word(")");
            }
            Delimiter::Bracket => {
                self.word("[");
                self.glue = true;
                self.stream(inner.into_iter().collect());
                self.word("]");
            }
            Delimiter::None => self.stream(inner.into_iter().collect()),
        }
    }
}
