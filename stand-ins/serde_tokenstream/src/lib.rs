//! Stand-in for `serde_tokenstream`: deserialises `key = value, ...` token lists.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use serde::de::{self, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use std::cell::RefCell;
use std::fmt::{Debug, Display, Formatter};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::Deref;

#[derive(Debug, Clone)]
pub struct Fail(String);
impl Display for Fail {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Fail {}
impl de::Error for Fail {
    fn custom<T: Display>(m: T) -> Self {
        Fail(m.to_string())
    }
}

pub type Result<T> = std::result::Result<T, syn::Error>;
pub type Error = syn::Error;

pub fn from_tokenstream<T: de::DeserializeOwned>(ts: &TokenStream) -> Result<T> {
    T::deserialize(Value { tokens: ts.clone().into_iter().collect(), top: true })
        .map_err(|e| syn::Error::new(proc_macro2::Span::call_site(), e.0))
}

const TOKENS: &str = "$serde_tokenstream::tokens";
thread_local!(static STASH: RefCell<Vec<TokenStream>> = const { RefCell::new(vec![]) });

struct Value {
    tokens: Vec<TokenTree>,
    /// The outermost list, which has no braces.
    top: bool,
}

/// Splits at commas outside groups (angle brackets do not nest here).
fn parts(v: Vec<TokenTree>) -> Vec<Vec<TokenTree>> {
    let mut out = vec![];
    let mut cur = vec![];
    let mut angle = 0i32;
    let mut arrow = false;
    for t in v {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                ',' if angle <= 0 => {
                    out.push(std::mem::take(&mut cur));
                    continue;
                }
                '<' => angle += 1,
                '>' if !arrow => angle -= 1,
                _ => {}
            }
            arrow = (p.as_char() == '-' || p.as_char() == '=') && p.spacing() == Spacing::Joint;
        } else {
            arrow = false;
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

struct Map {
    left: std::vec::IntoIter<Vec<TokenTree>>,
    value: Vec<TokenTree>,
}
impl<'de> MapAccess<'de> for Map {
    type Error = Fail;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> std::result::Result<Option<K::Value>, Fail> {
        let Some(part) = self.left.next() else { return Ok(None) };
        let at = part
            .iter()
            .position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == '=' && p.spacing() == Spacing::Alone))
            .ok_or_else(|| Fail("expected `=`".into()))?;
        self.value = part[at + 1..].to_vec();
        seed.deserialize(Value { tokens: part[..at].to_vec(), top: false }).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> std::result::Result<V::Value, Fail> {
        seed.deserialize(Value { tokens: std::mem::take(&mut self.value), top: false })
    }
}

struct Seq(std::vec::IntoIter<Vec<TokenTree>>);
impl<'de> SeqAccess<'de> for Seq {
    type Error = Fail;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> std::result::Result<Option<T::Value>, Fail> {
        match self.0.next() {
            None => Ok(None),
            Some(tokens) => seed.deserialize(Value { tokens, top: false }).map(Some),
        }
    }
}

impl<'de> Deserializer<'de> for Value {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> std::result::Result<V::Value, Fail> {
        if self.top {
            return v.visit_map(Map { left: parts(self.tokens).into_iter(), value: vec![] });
        }
        match &self.tokens[..] {
            [TokenTree::Group(g)] if g.delimiter() == Delimiter::Brace => {
                v.visit_map(Map { left: parts(g.stream().into_iter().collect()).into_iter(), value: vec![] })
            }
            [TokenTree::Group(g)] if g.delimiter() != Delimiter::None => v.visit_seq(Seq(parts(g.stream().into_iter().collect()).into_iter())),
            [TokenTree::Literal(l)] => match syn::parse2::<syn::Lit>(l.to_token_stream()) {
                Ok(syn::Lit::Str(s)) => v.visit_string(s.value()),
                Ok(syn::Lit::Int(i)) => v.visit_i64(i.base10_parse().map_err(|e: syn::Error| Fail(e.to_string()))?),
                Ok(syn::Lit::Float(f)) => v.visit_f64(f.base10_parse().map_err(|e: syn::Error| Fail(e.to_string()))?),
                _ => Err(Fail(format!("unexpected literal {l}"))),
            },
            [TokenTree::Ident(i)] if i == "true" => v.visit_bool(true),
            [TokenTree::Ident(i)] if i == "false" => v.visit_bool(false),
            [TokenTree::Ident(i)] => v.visit_string(i.to_string()),
            t => Err(Fail(format!("unexpected tokens {}", t.iter().cloned().collect::<TokenStream>()))),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> std::result::Result<V::Value, Fail> {
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> std::result::Result<V::Value, Fail> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, n: &'static str, _l: usize, v: V) -> std::result::Result<V::Value, Fail> {
        if n == TOKENS {
            STASH.with(|s| s.borrow_mut().push(self.tokens.into_iter().collect()));
            return v.visit_unit();
        }
        self.deserialize_any(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _n: &'static str, _v: &'static [&'static str], v: V) -> std::result::Result<V::Value, Fail> {
        match &self.tokens[..] {
            [TokenTree::Ident(i)] => v.visit_enum(i.to_string().into_deserializer()),
            t => Err(Fail(format!("expected a name, not {}", t.iter().cloned().collect::<TokenStream>()))),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct seq tuple map struct identifier ignored_any
    }
}

/// Parses the tokens of a value with `syn`.
#[derive(Debug)]
pub struct ParseWrapper<P: syn::parse::Parse>(P);
impl<P: syn::parse::Parse> ParseWrapper<P> {
    pub fn into_inner(self) -> P {
        self.0
    }
}
impl<P: syn::parse::Parse> Deref for ParseWrapper<P> {
    type Target = P;
    fn deref(&self) -> &P {
        &self.0
    }
}
impl<P: syn::parse::Parse + Hash> Hash for ParseWrapper<P> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<P: syn::parse::Parse + PartialEq> PartialEq for ParseWrapper<P> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<P: syn::parse::Parse + Eq> Eq for ParseWrapper<P> {}
impl<P: syn::parse::Parse + ToTokens> ToTokens for ParseWrapper<P> {
    fn to_tokens(&self, t: &mut TokenStream) {
        self.0.to_tokens(t)
    }
}
impl<'de, P: syn::parse::Parse> Deserialize<'de> for ParseWrapper<P> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        struct Unit;
        impl<'de> Visitor<'de> for Unit {
            type Value = ();
            fn expecting(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
                f.write_str("tokens")
            }
            fn visit_unit<E>(self) -> std::result::Result<(), E> {
                Ok(())
            }
        }
        d.deserialize_tuple_struct(TOKENS, 0, Unit)?;
        let ts = STASH.with(|s| s.borrow_mut().pop()).unwrap_or_default();
        syn::parse2(ts).map(ParseWrapper).map_err(de::Error::custom)
    }
}

/// A map whose entries stay in the order in which they were written.
pub struct OrderedMap<K, V>(Vec<(K, V)>);
impl<K, V> Default for OrderedMap<K, V> {
    fn default() -> Self {
        OrderedMap(vec![])
    }
}
impl<K, V> IntoIterator for OrderedMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for OrderedMap<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        struct Pairs<K, V>(PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for Pairs<K, V> {
            type Value = Vec<(K, V)>;
            fn expecting(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> std::result::Result<Self::Value, A::Error> {
                let mut v = vec![];
                while let Some(e) = a.next_entry()? {
                    v.push(e);
                }
                Ok(v)
            }
        }
        d.deserialize_map(Pairs(PhantomData)).map(OrderedMap)
    }
}
