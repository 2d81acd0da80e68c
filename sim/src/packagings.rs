//! The same clients in the other packagings: from the macro, and as stand-alone crates
//! written by the crate-generating command with the support code included.
#![allow(clippy::all)]

macro_rules! by_macro {
    ($name:ident, $($settings:tt)*) => {
        #[allow(warnings)]
        pub mod $name {
            progenitor::generate_api!($($settings)*);
        }
    };
}
by_macro!(m_positional, spec = "../spec/sim_positional.json", interface = Positional, derives = [PartialEq]);
by_macro!(m_builder, spec = "../spec/sim.json", interface = Builder, tags = Merged, derives = [PartialEq]);
by_macro!(m_tagged, spec = "../spec/sim.json", interface = Builder, tags = Separate, derives = [PartialEq]);
by_macro!(
    m_hooks_positional,
    spec = "../spec/sim_positional.json",
    inner_type = crate::hooks::Inner,
    pre_hook = crate::hooks::pre,
    pre_hook_async = crate::hooks::pre_async,
    post_hook = crate::hooks::post,
    post_hook_async = crate::hooks::post_async,
    derives = [PartialEq],
);
by_macro!(
    m_hooks_builder,
    spec = "../spec/sim.json",
    interface = Builder,
    inner_type = crate::hooks::Inner,
    pre_hook = (|inner: &crate::hooks::Inner, r: &reqwest::Request| crate::hooks::pre(inner, r)),
    pre_hook_async = crate::hooks::pre_async,
    post_hook = (|inner: &crate::hooks::Inner, r: &Result<reqwest::Response, reqwest::Error>| crate::hooks::post(inner, r)),
    post_hook_async = crate::hooks::post_async,
    derives = [PartialEq],
);

mod ops {
    crate::positional_ops!(m_pos, [crate::packagings::m_positional], [progenitor::progenitor_client]);
    crate::positional_ops!(m_hpos, [crate::packagings::m_hooks_positional], [progenitor::progenitor_client]);
    crate::builder_ops!(m_bld, [crate::packagings::m_builder], [prelude], [progenitor::progenitor_client], $);
    crate::builder_ops!(m_tag, [crate::packagings::m_tagged], [prelude], [progenitor::progenitor_client], $);
    crate::builder_ops!(m_hbld, [crate::packagings::m_hooks_builder], [prelude], [progenitor::progenitor_client], $);
    crate::positional_ops!(s_pos, [sa_positional], [sa_positional]);
    crate::builder_ops!(s_bld, [sa_builder], [prelude], [sa_builder], $);
    crate::builder_ops!(s_tag, [sa_tagged], [prelude], [sa_tagged], $);
}

/// Packagings other than the build script's, by the names scenarios use.
pub const PACKS: &[&str] = &["macro", "standalone"];

#[derive(Clone, Default)]
pub struct Packs {
    m_pos: Option<m_positional::Client>,
    m_bld: Option<m_builder::Client>,
    m_tag: Option<m_tagged::Client>,
    m_hpos: Option<m_hooks_positional::Client>,
    m_hbld: Option<m_hooks_builder::Client>,
    s_pos: Option<sa_positional::Client>,
    s_bld: Option<sa_builder::Client>,
    s_tag: Option<sa_tagged::Client>,
}

impl Packs {
    pub fn make(pack: &str, used: &dyn Fn(&str) -> bool, b: &str, inner: &dyn Fn() -> crate::hooks::Inner, own: &dyn Fn() -> Option<reqwest::Client>) -> Packs {
        let m = |v: &str| pack == "macro" && used(v);
        let s = |v: &str| pack == "standalone" && used(v);
        Packs {
            m_pos: m("pos").then(|| crate::made!(m_positional, own, b)),
            m_bld: m("bld").then(|| crate::made!(m_builder, own, b)),
            m_tag: m("tag").then(|| crate::made!(m_tagged, own, b)),
            m_hpos: m("hpos").then(|| crate::made!(m_hooks_positional, own, b, inner())),
            m_hbld: m("hbld").then(|| crate::made!(m_hooks_builder, own, b, inner())),
            s_pos: s("pos").then(|| crate::made!(sa_positional, own, b)),
            s_bld: s("bld").then(|| crate::made!(sa_builder, own, b)),
            s_tag: s("tag").then(|| crate::made!(sa_tagged, own, b)),
        }
    }

    /// Whether this packaging has a client of that kind (there are no stand-alone hooks).
    pub fn has(pack: &str, v: &str) -> bool {
        match pack {
            "macro" => ["pos", "bld", "tag", "hpos", "hbld"].contains(&v),
            "standalone" => ["pos", "bld", "tag"].contains(&v),
            _ => false,
        }
    }

    pub async fn call(&self, pack: &str, v: &str, name: &str, rec: usize) {
        match (pack, v) {
            ("macro", "pos") => ops::m_pos::call(self.m_pos.as_ref().unwrap(), name, rec).await,
            ("macro", "bld") => ops::m_bld::call(self.m_bld.as_ref().unwrap(), name, rec).await,
            ("macro", "tag") => ops::m_tag::call(self.m_tag.as_ref().unwrap(), name, rec).await,
            ("macro", "hpos") => ops::m_hpos::call(self.m_hpos.as_ref().unwrap(), name, rec).await,
            ("macro", "hbld") => ops::m_hbld::call(self.m_hbld.as_ref().unwrap(), name, rec).await,
            ("standalone", "pos") => ops::s_pos::call(self.s_pos.as_ref().unwrap(), name, rec).await,
            ("standalone", "bld") => ops::s_bld::call(self.s_bld.as_ref().unwrap(), name, rec).await,
            ("standalone", "tag") => ops::s_tag::call(self.s_tag.as_ref().unwrap(), name, rec).await,
            _ => crate::run::harness(format!("no packaging {pack}:{v}")),
        }
    }
}
