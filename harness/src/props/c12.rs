//! Argument lists keep every argument in order.
use crate::coll::*;
use crate::infra::*;
pub fn run(ctx: &mut Ctx) {
    crate::gen::heavy_tail();
    ctx.run("args", 4000, 60_000, |c| args_machine(c, 10));
    ctx.run("args-long", 100, 2000, |c| args_machine(c, 80));
    ctx.require("arg-edits", 1000);
    ctx.require("args-compared", 1000);
}
