pub mod futs;
use crate::infra::Ctx;
macro_rules! props {
    ($($id:literal => $m:ident),* ; $($nid:literal => $n:ident),* ; $($tid:literal => $t:ident),* $(,)?) => {
        $(mod $m;)*
        // Monitors that need the virtual clock or tokio.
        $(#[cfg(all(feature = "full", not(miri)))] mod $n;)*
        // Monitors that need real sockets and TLS.
        $(#[cfg(all(feature = "tls", not(miri)))] mod $t;)*
        pub fn run(ctx: &mut Ctx) {
            match ctx.prop.clone().as_str() {
                $($id => $m::run(ctx),)*
                $(#[cfg(all(feature = "full", not(miri)))] $nid => $n::run(ctx),)*
                $(#[cfg(all(feature = "tls", not(miri)))] $tid => $t::run(ctx),)*
                p => panic!("unknown property {p}"),
            }
        }
    };
}
props! {
    "C01" => c01,
    "C02" => c02,
    "C03" => c03,
    "C04" => c04,
    "C05" => c05,
    "C06" => c06,
    "C07" => c07,
    "C08" => c08,
    "C09" => c09,
    "C11" => c11,
    "C12" => c12,
    "C13" => c13,
    "C14" => c14,
    "C15" => c15,
    "C16" => c16,
    "C20" => c20,
    "C21" => c21,
    "C24" => c24,
    "C27" => c27,
    "C29" => c29,
    "C30" => c30,
    "C31" => c31;
    "C10" => c10,
    "C17" => c17,
    "C18" => c18,
    "C19" => c19,
    "C22" => c22,
    "C23" => c23,
    "C25" => c25,
    "C26" => c26;
    "C28" => c28,
}
