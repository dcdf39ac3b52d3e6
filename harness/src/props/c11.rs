//! Tag and name collections behave as maps.
use crate::coll::*;
use crate::infra::*;
pub fn run(ctx: &mut Ctx) {
    ctx.run("tags", 3000, 40_000, |c| tags_machine(c, 5, true));
    ctx.run("tags-long", 150, 3000, |c| tags_machine(c, 40, true));
    ctx.run("tags-big", 150, 4000, |c| tags_machine(c, 4, true));
    ctx.run("names-big", 100, 3000, |c| map_machine(c, 4, true));
    ctx.run("tags-huge-big", 3, 60, |c| tags_machine(c, 2, false));
    ctx.run("names-huge-big", 3, 60, |c| map_machine(c, 2, false));
    ctx.run("names", 3000, 40_000, |c| map_machine(c, 5, true));
    ctx.run("names-long", 150, 3000, |c| map_machine(c, 40, true));
    for k in ["tag-edits", "map-edits", "leaked-sessions", "maps-compared", "tags-compared"] {
        ctx.require(k, 500);
    }
}
