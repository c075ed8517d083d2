mod bufs;
mod codes;
mod far;
mod io;
#[macro_use]
mod store;
mod ranks;
mod streams;
mod tuples;
mod vecs;
mod views;
mod wraps;

#[global_allocator]
static ALLOC: rt::alloc::SimAlloc = rt::alloc::SimAlloc;

fn main() {
    let p = |id, scenario| rt::driver::Prop { id, scenario };
    let props = [
        p("C01", streams::c01), p("C02", streams::c02), p("C03", streams::c03), p("C04", streams::c04),
        p("C05", streams::c05), p("C06", streams::c06), p("C07", bufs::c07), p("C08", bufs::c08), p("C09", bufs::c09),
        p("C10", vecs::c10), p("C11", vecs::c11), p("C12", vecs::c12), p("C13", vecs::c13), p("C14", vecs::c14),
        p("C15", views::c15), p("C16", views::c16),
        p("C17", ranks::c17), p("C18", ranks::c18), p("C19", vecs::c19), p("C24", wraps::c24),
    ];
    rt::driver::main(&props, if cfg!(debug_assertions) { "chk" } else { "rel" })
}
