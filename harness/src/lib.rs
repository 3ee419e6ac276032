//! Harnesses over the real crate. Each one is executed symbolically from the IR and
//! natively (replay) from the same source.
pub mod rt;
pub mod util;
pub mod route;
pub mod serve;
pub mod param;
pub mod chain;
pub mod app;
pub mod form;
pub mod json;
pub mod fs;
pub mod table;
pub mod life;
pub mod scale;

macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C-unwind" fn $f() { $m::$f() })*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($f), $f)),*];
    };
}
harnesses! {
    route::harness_serve_route,
    route::harness_again,
    route::harness_route,
    route::harness_accept,
    route::harness_pattern_text,
    route::harness_pair_text,
    route::harness_order,
    route::harness_mount,
    route::harness_scope,
    route::harness_slashes,
    route::harness_slash_pattern,
    route::harness_transparent,
    route::harness_copy,
    param::harness_param,
    chain::harness_chain,
    app::harness_dispatch,
    app::harness_error_text,
    app::harness_response,
    app::harness_known_header,
    app::harness_known_request,
    app::harness_delivery,
    app::harness_responder,
    app::harness_concurrent,
    app::harness_logger,
    form::harness_form,
    form::harness_cow_map,
    form::harness_chunks,
    json::harness_json_read,
    json::harness_json_any,
    json::harness_json_write,
    fs::harness_contain,
    fs::harness_static,
    fs::harness_build_file,
    table::harness_table,
    table::harness_table_mounted,
    table::harness_table_more,
    life::harness_build_ops,
    life::harness_context,
    life::harness_history,
    life::harness_together,
    life::harness_abandon,
    scale::harness_large,
    scale::harness_many_mounts,
    scale::harness_many_requests,
    scale::harness_many_together,
    scale::harness_many_headers,
    scale::harness_large_request,
}
