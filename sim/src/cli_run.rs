//! Runs a generated command in process.
use crate::clients::builder::{Client, Error, ResponseValue};
use crate::clients::cli::{Cli, CliCommand, CliConfig};
use crate::out::*;
use crate::run::{harness, now, plan, with};
use serde_json::{json, Value};

pub struct Cfg {
    rec: usize,
    /// What the configuration's step before the request does: null, {"refuse": why} or {"set": text}.
    step: Value,
}

/// The steps of the commands.
macro_rules! steps {
    ($($f:ident $b:ident $($set:ident)?;)*) => {$(
        fn $f(&self, _m: &clap::ArgMatches, _r: &mut crate::clients::builder::builder::$b) -> anyhow::Result<()> {
            let t = now();
            with(self.rec, |o| o.cli.as_mut().unwrap().steps.push(t));
            if let Some(why) = self.step["refuse"].as_str() {
                anyhow::bail!("{why}");
            }
            $(if let Some(v) = self.step["set"].as_str() {
                *_r = _r.clone().$set(v.to_string());
            })?
            Ok(())
        }
    )*};
}

impl Cfg {
    fn ev(&self, what: &str, v: Value) {
        let t = now();
        with(self.rec, |o| o.cli.as_mut().unwrap().events.push((t, what.to_string(), v)));
    }
}

fn err_json<T>(e: &Error<T>) -> Value
where
    Error<T>: std::error::Error,
{
    let kind = match e {
        Error::InvalidRequest(_) => "invalid_request",
        Error::CommunicationError(_) => "comm",
        Error::InvalidUpgrade(_) => "invalid_upgrade",
        Error::ErrorResponse(_) => "error_response",
        Error::ResponseBodyError(_) => "response_body",
        Error::InvalidResponsePayload(..) => "invalid_payload",
        Error::UnexpectedResponse(_) => "unexpected",
        Error::PreHookError(_) => "pre_hook",
        Error::PostHookError(_) => "post_hook",
    };
    let latin = |b: &[u8]| b.iter().map(|&c| c as char).collect::<String>();
    let heads = |h: &reqwest::header::HeaderMap| -> Value {
        hdrs(h).iter().map(|(n, v)| json!([n, latin(v)])).collect()
    };
    let mut v = json!({"kind": kind, "status": e.status().map(|s| s.as_u16()), "text": e.to_string()});
    match e {
        Error::CommunicationError(e) | Error::InvalidUpgrade(e) | Error::ResponseBodyError(e) => {
            v["net"] = serde_json::to_value(net_err(e)).unwrap()
        }
        Error::InvalidResponsePayload(b, _) => v["payload"] = latin(b).into(),
        Error::ErrorResponse(r) => {
            v["rv_status"] = r.status().as_u16().into();
            v["headers"] = heads(r.headers());
        }
        Error::UnexpectedResponse(r) => {
            v["rv_status"] = r.status().as_u16().into();
            v["headers"] = heads(r.headers());
        }
        _ => {}
    }
    v
}

fn head_json<T>(v: &ResponseValue<T>) -> Value {
    hdrs(v.headers()).iter().map(|(n, v)| json!([n, v.iter().map(|&c| c as char).collect::<String>()])).collect()
}

impl CliConfig for Cfg {
    steps! {
        execute_thing_get ThingGet id;
        execute_thing_delete ThingDelete id;
        execute_thing_head ThingHead id;
        execute_thing_patch ThingPatch;
        execute_thing_list ThingList filter;
        execute_thing_create ThingCreate;
        execute_thing_put ThingPut project;
        execute_proj_list ProjList project;
        execute_form_post FormPost;
        execute_do_nothing DoNothing a;
        execute_opt_json OptJson;
        execute_scalar_json ScalarJson;
        execute_any_json AnyJson;
        execute_map_json MapJson;
    }
    fn success_item<T>(&self, v: &ResponseValue<T>)
    where
        T: serde::Serialize + std::fmt::Debug,
    {
        self.ev("success_item", json!({"status": v.status().as_u16(), "headers": head_json(v), "value": serde_json::to_value(&**v).unwrap()}))
    }
    fn success_no_item(&self, v: &ResponseValue<()>) {
        self.ev("success_no_item", json!({"status": v.status().as_u16(), "headers": head_json(v)}))
    }
    fn error<T>(&self, e: &Error<T>)
    where
        T: serde::Serialize + std::fmt::Debug,
    {
        self.ev("error", err_json(e))
    }
    fn list_start<T>(&self)
    where
        T: serde::Serialize + std::fmt::Debug,
    {
        self.ev("list_start", Value::Null)
    }
    fn list_item<T>(&self, v: &T)
    where
        T: serde::Serialize + std::fmt::Debug,
    {
        self.ev("list_item", serde_json::to_value(v).unwrap())
    }
    fn list_end_success<T>(&self)
    where
        T: serde::Serialize + std::fmt::Debug,
    {
        self.ev("list_end_success", Value::Null)
    }
    fn list_end_error<T>(&self, e: &Error<T>)
    where
        T: serde::Serialize + std::fmt::Debug,
    {
        self.ev("list_end_error", err_json(e))
    }
}

/// "thing_get" is `CliCommand::ThingGet`.
fn command(name: &str) -> CliCommand {
    let camel: String = name
        .split('_')
        .map(|w| {
            let mut c = w.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
        })
        .collect();
    CliCommand::iter()
        .find(|c| format!("{c:?}") == camel)
        .unwrap_or_else(|| harness(format!("no command for {name}")))
}

pub async fn call(c: &Client, name: &str, rec: usize) {
    let (argv, body, x, step) = plan(rec, |p| {
        let argv: Vec<String> = serde_json::from_value(p.args["argv"].clone()).unwrap_or_default();
        (argv, p.args.get("json_body").cloned(), p.id.to_string(), p.args["step"].clone())
    });
    with(rec, |o| o.cli = Some(CliLog::default()));
    let mut argv = argv;
    argv.push("--x-op".into());
    argv.push(x);
    let mut file = None;
    if let Some(b) = body {
        let p = format!("{}/sim-{}-{rec}.json", std::env::temp_dir().display(), std::process::id());
        std::fs::write(&p, b.to_string()).unwrap_or_else(|e| harness(format!("{p}: {e}")));
        argv.push("--json-body".into());
        argv.push(p.clone());
        file = Some(p);
    }
    let cmd = Cli::<Cfg>::get_command(command(name)).no_binary_name(true);
    match cmd.try_get_matches_from(argv) {
        Err(e) => with(rec, |o| {
            o.cli.as_mut().unwrap().parse_err = Some(e.to_string());
            o.kind = "cli_usage".into();
        }),
        Ok(m) => {
            with(rec, |o| o.kind = "cli".into());
            let r = Cli::new(c.clone(), Cfg { rec, step }).execute(command(name), &m).await;
            let t = now();
            with(rec, |o| {
                o.t_ret = t;
                o.cli.as_mut().unwrap().result = Some(r.map_err(|e| format!("{e:#}")))
            });
        }
    }
    if let Some(f) = file {
        let _ = std::fs::remove_file(f);
    }
}
