//! Stand-in for `rustfmt-wrapper`: no child process, just line breaks and indentation.
use std::fmt::Display;

pub mod config {
    #[derive(Debug, Clone, Default)]
    pub struct Config {
        pub normalize_doc_attributes: Option<bool>,
        pub wrap_comments: Option<bool>,
        pub format_strings: Option<bool>,
        pub max_width: Option<usize>,
    }
}

#[derive(Debug)]
pub enum Error {
    Rustfmt(String),
}
impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

pub fn rustfmt<T: ToString>(input: T) -> Result<String, Error> {
    rustfmt_config(config::Config::default(), input)
}

pub fn rustfmt_config<T: ToString>(_c: config::Config, input: T) -> Result<String, Error> {
    let s: Vec<char> = input.to_string().chars().collect();
    let mut out = String::with_capacity(s.len() * 2);
    let mut depth = 0usize;
    let mut parens = 0usize;
    let mut i = 0;
    let nl = |out: &mut String, depth: usize| {
        while out.ends_with(' ') {
            out.pop();
        }
        out.push('\n');
        for _ in 0..depth {
            out.push_str("    ");
        }
    };
    while i < s.len() {
        let c = s[i];
        match c {
            '"' => {
                // A string literal, possibly raw.
                let mut hashes = 0;
                let mut j = i;
                while j > 0 && s[j - 1] == '#' {
                    hashes += 1;
                    j -= 1;
                }
                let raw = j > 0 && s[j - 1] == 'r';
                out.push(c);
                i += 1;
                while i < s.len() {
                    out.push(s[i]);
                    if !raw && s[i] == '\\' {
                        i += 1;
                        out.push(s[i]);
                    } else if s[i] == '"' {
                        let close = (1..=hashes).all(|k| s.get(i + k) == Some(&'#'));
                        if !raw || close {
                            break;
                        }
                    }
                    i += 1;
                }
            }
            '\'' if s.get(i + 2) == Some(&'\'') || s.get(i + 1) == Some(&'\\') => {
                out.push(c);
                i += 1;
                if s[i] == '\\' {
                    out.push(s[i]);
                    i += 1;
                }
                while s[i] != '\'' {
                    out.push(s[i]);
                    i += 1;
                }
                out.push('\'');
            }
            '(' | '[' => {
                parens += 1;
                out.push(c);
            }
            ')' | ']' => {
                parens = parens.saturating_sub(1);
                out.push(c);
            }
            '{' => {
                depth += 1;
                out.push(c);
                nl(&mut out, depth);
                while s.get(i + 1) == Some(&' ') {
                    i += 1;
                }
            }
            '}' => {
                depth = depth.saturating_sub(1);
                nl(&mut out, depth);
                out.push(c);
                let next = s[i + 1..].iter().find(|c| !c.is_whitespace());
                if !matches!(next, Some(')' | ',' | ';' | '.' | '?')) {
                    nl(&mut out, depth);
                    while s.get(i + 1) == Some(&' ') {
                        i += 1;
                    }
                }
            }
            ';' if parens == 0 => {
                out.push(c);
                nl(&mut out, depth);
                while s.get(i + 1) == Some(&' ') {
                    i += 1;
                }
            }
            '\n' => out.push(' '),
            c => out.push(c),
        }
        i += 1;
    }
    out.push('\n');
    Ok(out)
}
