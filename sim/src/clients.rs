//! The generated clients under simulation (written by `gen emit` from the generator in
//! /repo) and the code that turns a scenario's op into a call on them.
#![allow(clippy::all)]

macro_rules! generated {
    ($name:ident) => {
        #[allow(warnings)]
        pub mod $name {
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../build/generated/", stringify!($name), ".rs"));
        }
    };
}

generated!(positional);
generated!(builder);
generated!(tagged);
generated!(hooks_positional);
generated!(hooks_builder);
#[allow(warnings)]
pub mod cli {
    /// The bound of the generated trait; the real trait is not needed here.
    pub mod schemars {
        pub trait JsonSchema {}
        impl<T: ?Sized> JsonSchema for T {}
    }
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../build/generated/cli.rs"));
}


pub struct Args {
    pub v: serde_json::Value,
    pub x: String,
}

impl Args {
    pub fn new(rec: usize) -> Args {
        crate::run::plan(rec, |p| Args { v: p.args.clone(), x: p.id.to_string() })
    }
    pub fn get<T: serde::de::DeserializeOwned>(&self, k: &str) -> T {
        let v = self.v.get(k).cloned().unwrap_or(serde_json::Value::Null);
        serde_json::from_value(v.clone()).unwrap_or_else(|e| crate::run::harness(format!("argument {k} = {v}: {e}")))
    }
    pub fn opt<T: serde::de::DeserializeOwned>(&self, k: &str) -> Option<T> {
        match self.v.get(k) {
            None | Some(serde_json::Value::Null) => None,
            Some(v) => Some(
                serde_json::from_value(v.clone())
                    .unwrap_or_else(|e| crate::run::harness(format!("argument {k} = {v}: {e}"))),
            ),
        }
    }
    /// A value given before the one that counts.
    pub fn first<T: serde::de::DeserializeOwned>(&self, k: &str) -> Option<T> {
        let v = self.v.get("_first")?.get(k)?.clone();
        self.v.get(k).filter(|v| !v.is_null())?;
        serde_json::from_value(v).ok()
    }
    pub fn s(&self, k: &str) -> String {
        self.get(k)
    }
    pub fn flag(&self, k: &str) -> bool {
        self.v.get(k).and_then(|v| v.as_bool()).unwrap_or(false)
    }
}

#[macro_export]
macro_rules! positional_ops {
    ($name:ident, [$($m:tt)*], [$($sup:tt)*]) => {
        #[allow(unused_imports, dead_code)]
        pub mod $name {
            $crate::capture_mod!($($sup)*);
            pub use $($m)*::{types, Client};
            use $crate::clients::Args;
            use $crate::run::sized;

            pub async fn call(c: &Client, name: &str, rec: usize) {
                let a = Args::new(rec);
                let x = a.x.as_str();
                match name {
                    "thing_get" => { let r = sized(rec, c.thing_get(&a.s("id"), x)).await; fin::<Json, Json, _, _>(r, rec).await }
                    "thing_delete" => { let r = sized(rec, c.thing_delete(&a.s("id"), x)).await; fin::<Unit, Json, _, _>(r, rec).await }
                    "thing_head" => { let r = sized(rec, c.thing_head(&a.s("id"), x)).await; fin::<Unit, Unit, _, _>(r, rec).await }
                    "thing_create" => { let b: types::Thing = a.get("body"); let r = sized(rec, c.thing_create(x, &b)).await; fin::<Json, Json, _, _>(r, rec).await }
                    "thing_put" => {
                        let (n, b): (types::Name, types::Thing) = (a.get("id"), a.get("body"));
                        let r = sized(rec, c.thing_put(&a.s("project"), &n, a.get("part_no"), x, &b)).await;
                        fin::<Json, Json, _, _>(r, rec).await
                    }
                    "thing_patch" => {
                        let b: types::Patch = a.get("body");
                        let r = sized(rec, c.thing_patch(&a.get("id"), x, &b)).await;
                        fin::<Json, Json, _, _>(r, rec).await
                    }
                    "thing_list" => {
                        let (f, p): (Option<String>, Option<String>) = (a.opt("filter"), a.opt("page_token"));
                        let r = sized(rec, c.thing_list(f.as_deref(), a.opt("limit"), p.as_deref(), a.opt("sort"), x)).await;
                        fin::<Json, Json, _, _>(r, rec).await
                    }
                    "thing_list_stream" => {
                        let f: Option<String> = a.opt("filter");
                        pages(c.thing_list_stream(f.as_deref(), a.opt("limit"), a.opt("sort"), x), rec).await
                    }
                    "proj_list" => {
                        let (p, s): (Option<String>, Option<String>) = (a.opt("page_token"), a.opt("selector"));
                        let r = sized(rec, c.proj_list(&a.s("project"), a.get("kind"), a.opt("limit"), p.as_deref(), s.as_deref(), x, &a.s("x-scope"))).await;
                        fin::<Json, Json, _, _>(r, rec).await
                    }
                    "proj_list_stream" => {
                        let s: Option<String> = a.opt("selector");
                        let (p, h) = (a.s("project"), a.s("x-scope"));
                        pages(c.proj_list_stream(&p, a.get("kind"), a.opt("limit"), s.as_deref(), x, &h), rec).await
                    }
                    "raw_get" => { let r = sized(rec, c.raw_get(&a.s("name"), x)).await; fin::<Raw, Raw, _, _>(r, rec).await }
                    "raw_default" => { let q: Option<String> = a.opt("q"); let r = sized(rec, c.raw_default(q.as_deref(), x)).await; fin::<Raw, Raw, _, _>(r, rec).await }
                    "upload_octet" => { let r = sized(rec, c.upload_octet(&a.s("name"), x, $crate::run::octet_body(rec))).await; fin::<Unit, Json, _, _>(r, rec).await }
                    "upload_text" => { let m: Option<String> = a.opt("mode"); let r = sized(rec, c.upload_text(m.as_deref(), x, $crate::run::text_body(rec))).await; fin::<Json, Json, _, _>(r, rec).await }
                    "upload_md" => { let r = sized(rec, c.upload_md(x, $crate::run::text_body(rec))).await; fin::<Json, Json, _, _>(r, rec).await }
                    "form_post" => { let b: types::Form = a.get("body"); let r = sized(rec, c.form_post(x, &b)).await; fin::<Json, Json, _, _>(r, rec).await }
                    "search" => {
                        let s = |k: &str| a.opt::<String>(k);
                        let (abcd, client, request, self_, type_, url, xt) = (s("a b&c=d"), s("client"), s("request"), s("self"), s("type"), s("url"), s("x-text"));
                        let kinds: Option<Vec<types::Kind>> = a.opt("kinds");
                        let tag: Option<Vec<String>> = a.opt("tag[]");
                        let nm: Option<types::Name> = a.opt("name");
                        let id: Option<uuid::Uuid> = a.opt("id");
                        let nums: Vec<i32> = a.get("nums");
                        let r = sized(rec, c.search(
                            &a.get("when"), abcd.as_deref(), a.opt("b"), client.as_deref(), a.opt("f"), id.as_ref(), a.opt("kind"),
                            kinds.as_ref(), a.opt("n"), nm.as_ref(), &nums, &a.s("q"), request.as_deref(), self_.as_deref(),
                            tag.as_ref(), type_.as_deref(), a.opt("u"), url.as_deref(), a.opt("x-kind"), a.opt("x-num"), x, xt.as_deref(),
                        )).await;
                        fin::<Json, Json, _, _>(r, rec).await
                    }
                    "channel" => { let m: Option<String> = a.opt("mode"); let r = sized(rec, c.channel(&a.s("id"), m.as_deref(), x)).await; fin::<Upg, Upg, _, _>(r, rec).await }
                    "channel_typed" => { let r = sized(rec, c.channel_typed(&a.s("id"), x)).await; fin::<Upg, Json, _, _>(r, rec).await }
                    "do_nothing" => { let r = sized(rec, c.do_nothing(&a.s("a"), &a.s("b"), x)).await; fin::<Unit, Json, _, _>(r, rec).await }
                    "only_errors" => { let r = sized(rec, c.only_errors(x)).await; fin::<Raw, Json, _, _>(r, rec).await }
                    "opt_json" => { let r = sized(rec, c.opt_json(x)).await; fin::<Json, Unit, _, _>(r, rec).await }
                    "scalar_json" => { let r = sized(rec, c.scalar_json(x)).await; fin::<Json, Json, _, _>(r, rec).await }
                    "any_json" => { let r = sized(rec, c.any_json(x)).await; fin::<Json, Json, _, _>(r, rec).await }
                    "map_json" => { let r = sized(rec, c.map_json(x)).await; fin::<Json, Json, _, _>(r, rec).await }
                    "root_get" => { let r = sized(rec, c.root_get(x)).await; fin::<Unit, Raw, _, _>(r, rec).await }
                    "obj_query" => {
                        let (f, m): (types::Patch, std::collections::HashMap<String, String>) = (a.get("filter"), a.get("m"));
                        let z: Option<String> = a.opt("zz");
                        let r = sized(rec, c.obj_query(&f, &m, z.as_deref(), x)).await;
                        fin::<Json, Unit, _, _>(r, rec).await
                    }
                    _ => $crate::run::harness(format!("no operation {name}")),
                }
            }
        }
    };
}

#[macro_export]
macro_rules! builder_ops {
    ($name:ident, [$($m:tt)*], [$($pre:tt)*], [$($sup:tt)*], $d:tt) => {
        #[allow(unused_imports, dead_code)]
        pub mod $name {
            $crate::capture_mod!($($sup)*);
            pub use $($m)*::{types, Client};
            use $($m)*::$($pre)*::*;
            use $crate::clients::Args;
            use $crate::run::sized;

            /// Sets each argument that the scenario gives.
            macro_rules! set {
                ($b:ident, $a:ident, $d($meth:ident : $t:ty = $k:literal),*) => {
                    $d( if let Some(v) = $a.first::<$t>($k) { $b = $b.$meth(v); } )*
                    $d( if let Some(v) = $a.opt::<$t>($k) { $b = $b.$meth(v); } )*
                };
            }
            macro_rules! go {
                ($b:ident, $a:ident, $rec:ident, $s:ident, $f:ident) => {{
                    $b = $b.x_op($a.x.clone());
                    if $a.flag("repeat") {
                        let _ = sized($rec, $b.clone().send()).await;
                        $crate::run::again($rec);
                    }
                    let r = sized($rec, $b.send()).await;
                    fin::<$s, $f, _, _>(r, $rec).await
                }};
            }

            fn thing_map(mut b: types::builder::Thing, v: &Value) -> types::builder::Thing {
                let Some(o) = v.as_object() else { return b };
                let get = |k: &str| o.get(k).filter(|v| !v.is_null()).cloned();
                fn to<T: DeserializeOwned>(v: Value) -> T { serde_json::from_value(v).unwrap() }
                if let Some(v) = get("id") { b = b.id(to::<i64>(v)); }
                if let Some(v) = get("name") { b = b.name(to::<String>(v)); }
                if let Some(v) = get("kind") { b = b.kind(to::<String>(v)); }
                if let Some(v) = get("tags") { b = b.tags(to::<Vec<String>>(v)); }
                if let Some(v) = get("note") { b = b.note(to::<String>(v)); }
                b
            }

            pub async fn call(c: &Client, name: &str, rec: usize) {
                let a = Args::new(rec);
                match name {
                    "thing_get" => { let mut b = c.thing_get(); set!(b, a, id: String = "id"); go!(b, a, rec, Json, Json) }
                    "thing_delete" => { let mut b = c.thing_delete(); set!(b, a, id: String = "id"); go!(b, a, rec, Unit, Json) }
                    "thing_head" => { let mut b = c.thing_head(); set!(b, a, id: String = "id"); go!(b, a, rec, Unit, Unit) }
                    "thing_create" => {
                        let mut b = c.thing_create();
                        if a.flag("body_map") {
                            let v = a.v.get("body").cloned().unwrap_or(Value::Null);
                            b = b.body_map(|x| thing_map(x, &v));
                        } else {
                            set!(b, a, body: types::Thing = "body");
                        }
                        go!(b, a, rec, Json, Json)
                    }
                    "thing_put" => {
                        let mut b = c.thing_put();
                        set!(b, a, project: String = "project", id: String = "id", part_no: i64 = "part_no", body: types::Thing = "body");
                        go!(b, a, rec, Json, Json)
                    }
                    "thing_patch" => {
                        let mut b = c.thing_patch();
                        set!(b, a, id: uuid::Uuid = "id", body: types::Patch = "body");
                        go!(b, a, rec, Json, Json)
                    }
                    "thing_list" | "thing_list_stream" => {
                        let mut b = c.thing_list();
                        set!(b, a, filter: String = "filter", limit: u32 = "limit", page_token: String = "page_token", sort: String = "sort");
                        if name == "thing_list" { go!(b, a, rec, Json, Json) } else { pages(b.x_op(a.x.clone()).stream(), rec).await }
                    }
                    "proj_list" | "proj_list_stream" => {
                        let mut b = c.proj_list();
                        set!(b, a, project: String = "project", kind: String = "kind", limit: u32 = "limit", page_token: String = "page_token", selector: String = "selector", x_scope: String = "x-scope");
                        if name == "proj_list" { go!(b, a, rec, Json, Json) } else { pages(b.x_op(a.x.clone()).stream(), rec).await }
                    }
                    "raw_get" => { let mut b = c.raw_get(); set!(b, a, name: String = "name"); go!(b, a, rec, Raw, Raw) }
                    "raw_default" => { let mut b = c.raw_default(); set!(b, a, q: String = "q"); go!(b, a, rec, Raw, Raw) }
                    "upload_octet" => {
                        let mut b = c.upload_octet().x_op(a.x.clone());
                        set!(b, a, name: String = "name");
                        if a.v.get("body").is_some() { b = b.body($crate::run::octet_body(rec)); }
                        let r = sized(rec, b.send()).await;
                        fin::<Unit, Json, _, _>(r, rec).await
                    }
                    "upload_text" => {
                        let mut b = c.upload_text().x_op(a.x.clone());
                        set!(b, a, mode: String = "mode");
                        if a.v.get("body").is_some() { b = b.body($crate::run::text_body(rec)); }
                        let r = sized(rec, b.send()).await;
                        fin::<Json, Json, _, _>(r, rec).await
                    }
                    "upload_md" => {
                        let mut b = c.upload_md().x_op(a.x.clone());
                        if a.v.get("body").is_some() { b = b.body($crate::run::text_body(rec)); }
                        let r = sized(rec, b.send()).await;
                        fin::<Json, Json, _, _>(r, rec).await
                    }
                    "form_post" => { let mut b = c.form_post(); set!(b, a, body: types::Form = "body"); go!(b, a, rec, Json, Json) }
                    "search" => {
                        let mut b = c.search();
                        set!(b, a, when: chrono::DateTime<chrono::Utc> = "when", a_b_c_d: String = "a b&c=d", b: bool = "b", client: String = "client",
                            f: f64 = "f", id: uuid::Uuid = "id", kind: String = "kind", kinds: Vec<types::Kind> = "kinds", n: i64 = "n",
                            name: String = "name", nums: Vec<i32> = "nums", q: String = "q", request: String = "request", self_: String = "self",
                            tag: Vec<String> = "tag[]", type_: String = "type", u: u64 = "u", url: String = "url", x_kind: String = "x-kind",
                            x_num: i64 = "x-num", x_text: String = "x-text");
                        go!(b, a, rec, Json, Json)
                    }
                    "channel" => { let mut b = c.channel(); set!(b, a, id: String = "id", mode: String = "mode"); go!(b, a, rec, Upg, Upg) }
                    "channel_typed" => { let mut b = c.channel_typed(); set!(b, a, id: String = "id"); go!(b, a, rec, Upg, Json) }
                    "do_nothing" => { let mut b = c.do_nothing(); set!(b, a, a: String = "a", b: String = "b"); go!(b, a, rec, Unit, Json) }
                    "only_errors" => { let mut b = c.only_errors(); go!(b, a, rec, Raw, Json) }
                    "opt_json" => { let mut b = c.opt_json(); go!(b, a, rec, Json, Unit) }
                    "scalar_json" => { let mut b = c.scalar_json(); go!(b, a, rec, Json, Json) }
                    "any_json" => { let mut b = c.any_json(); go!(b, a, rec, Json, Json) }
                    "map_json" => { let mut b = c.map_json(); go!(b, a, rec, Json, Json) }
                    "root_get" => { let mut b = c.root_get(); go!(b, a, rec, Unit, Raw) }
                    _ => $crate::run::harness(format!("no operation {name}")),
                }
            }
        }
    };
}
