//! Runs progenitor's generator (the code in /repo) on an API description.
//!
//!   gen emit <spec dir> <out dir>     writes one file per packaging/style
//!   gen render <config.json>          prints what one configuration generates
use progenitor_impl::{GenerationSettings, Generator, InterfaceStyle, TagStyle};

fn load(path: &str) -> openapiv3::OpenAPI {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    serde_json::from_str(&text).unwrap_or_else(|e| panic!("{path}: {e}"))
}

fn pretty(tokens: String) -> String {
    rustfmt_wrapper::rustfmt(tokens).unwrap()
}

fn settings(interface: InterfaceStyle, tag: TagStyle) -> GenerationSettings {
    let mut s = GenerationSettings::default();
    s.with_interface(interface).with_tag(tag).with_derive("PartialEq");
    s
}

fn hooks(s: &mut GenerationSettings) {
    let t = |s: &str| s.parse::<proc_macro2::TokenStream>().unwrap();
    s.with_inner_type(t("crate::hooks::Inner"))
        .with_pre_hook(t("crate::hooks::pre"))
        .with_pre_hook_async(t("crate::hooks::pre_async"))
        .with_post_hook(t("crate::hooks::post"))
        .with_post_hook_async(t("crate::hooks::post_async"));
}

fn write(dir: &str, name: &str, text: String) {
    let path = format!("{dir}/{name}");
    if std::fs::read_to_string(&path).ok().as_deref() != Some(&text) {
        std::fs::write(&path, text).unwrap();
    }
}

fn emit(specs: &str, dir: &str) {
    let api = load(&format!("{specs}/sim.json"));
    let api_pos = load(&format!("{specs}/sim_positional.json"));
    let api_cli = load(&format!("{specs}/sim_cli.json"));
    std::fs::create_dir_all(dir).unwrap();
    let one = |api: &openapiv3::OpenAPI, s: &GenerationSettings| {
        let mut g = Generator::new(s);
        pretty(g.generate_tokens(api).expect("generation").to_string())
    };
    write(dir, "positional.rs", one(&api_pos, &settings(InterfaceStyle::Positional, TagStyle::Merged)));
    let b = settings(InterfaceStyle::Builder, TagStyle::Merged);
    write(dir, "builder.rs", one(&api, &b));
    write(dir, "tagged.rs", one(&api, &settings(InterfaceStyle::Builder, TagStyle::Separate)));
    let mut h = settings(InterfaceStyle::Positional, TagStyle::Merged);
    hooks(&mut h);
    write(dir, "hooks_positional.rs", one(&api_pos, &h));
    let mut h = settings(InterfaceStyle::Builder, TagStyle::Merged);
    hooks(&mut h);
    write(dir, "hooks_builder.rs", one(&api, &h));
    // The helpers for tests are checked in a crate of their own: without them, the rest goes on.
    let mut g = Generator::new(&settings(InterfaceStyle::Positional, TagStyle::Merged));
    let mocks = load(&format!("{specs}/sim_mock.json"));
    let mocks = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        g.httpmock(&mocks, "crate::clients::positional").map(|t| pretty(t.to_string())).map_err(|e| e.to_string())
    }));
    let mocks = mocks.unwrap_or_else(|_| Err("the generator panicked".into()));
    write(dir, "httpmock.rs", mocks.unwrap_or_else(|e| format!("compile_error!({e:?});\n")));
    let mut g = Generator::new(&b);
    write(dir, "cli.rs", pretty(g.cli(&api_cli, "crate::clients::builder").expect("cli").to_string()));
}

#[derive(serde::Deserialize)]
struct Render {
    doc: String,
    /// tokens, cli, httpmock
    what: String,
    #[serde(default)]
    settings: serde_json::Value,
    /// Descriptions generated before, in the same process.
    #[serde(default)]
    earlier: Vec<String>,
    /// In a thread of its own.
    #[serde(default)]
    thread: bool,
}

fn configured(v: &serde_json::Value) -> GenerationSettings {
    use serde_json::Value;
    let mut s = GenerationSettings::default();
    let list = |k: &str| v[k].as_array().cloned().unwrap_or_default();
    let text = |v: &Value| v.as_str().unwrap_or("").to_string();
    s.with_interface(match v["interface"].as_str() {
        Some("builder") => InterfaceStyle::Builder,
        _ => InterfaceStyle::Positional,
    });
    s.with_tag(match v["tags"].as_str() {
        Some("separate") => TagStyle::Separate,
        _ => TagStyle::Merged,
    });
    for d in list("derives") {
        s.with_derive(text(&d));
    }
    // In the order in which they are given here.
    for p in list("patch") {
        let mut t = progenitor_impl::TypePatch::default();
        if p["rename"].is_string() {
            t.with_rename(text(&p["rename"]));
        }
        for d in p["derives"].as_array().into_iter().flatten() {
            t.with_derive(text(d));
        }
        s.with_patch(text(&p["type"]), &t);
    }
    for r in list("replace") {
        s.with_replacement(text(&r["type"]), text(&r["with"]), std::iter::once(progenitor_impl::TypeImpl::Display));
    }
    for c in list("crates") {
        s.with_crate(text(&c["name"]), progenitor_impl::CrateVers::parse(&text(&c["version"])).unwrap(), None);
    }
    if v["map_type"].is_string() {
        s.with_map_type(text(&v["map_type"]));
    }
    if v["hooks"] == true {
        hooks(&mut s);
    }
    s
}

fn render(path: &str) {
    let r: Render = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let go = move || {
        for e in &r.earlier {
            let _ = std::panic::catch_unwind(|| {
                let mut g = Generator::new(&configured(&r.settings));
                g.generate_tokens(&load(e)).map(|t| t.to_string().len()).unwrap_or(0)
            });
        }
        let api = load(&r.doc);
        let mut g = Generator::new(&configured(&r.settings));
        match r.what.as_str() {
            "cli" => g.cli(&api, "sdk").map(|t| t.to_string()),
            "httpmock" => g.httpmock(&api, "sdk").map(|t| t.to_string()),
            _ => g.generate_tokens(&api).map(|t| t.to_string()),
        }
    };
    let out = if r.thread { std::thread::spawn(go).join().expect("generation") } else { go() };
    match out {
        Ok(s) => print!("{s}"),
        Err(e) => {
            print!("error: {e:?}");
            std::process::exit(3);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match &args[1..] {
        ["emit", specs, dir] => emit(specs, dir),
        ["render", config] => render(config),
        _ => {
            eprintln!("usage: gen emit SPEC_DIR DIR | render CONFIG");
            std::process::exit(2);
        }
    }
}
