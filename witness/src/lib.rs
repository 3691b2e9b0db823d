//! Uses of the exported macros, type-checked against the current http-types; never run.
pub use http_types;
use http_types::{bail, bail_status, ensure, ensure_eq, ensure_eq_status, ensure_status, format_err, format_err_status};

pub fn plain_format_err_lit() -> http_types::Error {
    format_err!("oh no")
}
pub fn plain_format_err_fmt(n: u32) -> http_types::Error {
    format_err!("oh no {}", n)
}
pub fn plain_bail_lit() -> http_types::Result<u32> {
    bail!("oh no")
}
pub fn plain_bail_fmt(n: u32) -> http_types::Result<u32> {
    bail!("oh no {}", n)
}
pub fn plain_ensure_lit(c: bool) -> http_types::Result<u32> {
    ensure!(c, "oh no");
    Ok(7)
}
pub fn plain_ensure_fmt(c: bool, n: u32) -> http_types::Result<u32> {
    ensure!(c, "oh no {}", n);
    Ok(7)
}
pub fn plain_ensure_eq_lit(a: u32, b: u32) -> http_types::Result<u32> {
    ensure_eq!(a, b, "oh no");
    Ok(7)
}
pub fn plain_ensure_eq_fmt(a: u32, b: u32) -> http_types::Result<u32> {
    ensure_eq!(a, b, "oh no {}", a);
    Ok(7)
}
pub fn status_format_err_lit() -> http_types::Error {
    format_err_status!(418, "oh no")
}
pub fn status_format_err_expr(m: String) -> http_types::Error {
    format_err_status!(418, m)
}
pub fn status_format_err_fmt(n: u32) -> http_types::Error {
    format_err_status!(418, "oh no {}", n)
}
pub fn status_bail_lit() -> http_types::Result<u32> {
    bail_status!(418, "oh no")
}
pub fn status_bail_expr(m: String) -> http_types::Result<u32> {
    bail_status!(418, m)
}
pub fn status_bail_fmt(n: u32) -> http_types::Result<u32> {
    bail_status!(418, "oh no {}", n)
}
pub fn status_ensure_lit(c: bool) -> http_types::Result<u32> {
    ensure_status!(c, 418, "oh no");
    Ok(7)
}
pub fn status_ensure_expr(c: bool, m: String) -> http_types::Result<u32> {
    ensure_status!(c, 418, m);
    Ok(7)
}
pub fn status_ensure_fmt(c: bool, n: u32) -> http_types::Result<u32> {
    ensure_status!(c, 418, "oh no {}", n);
    Ok(7)
}
pub fn status_ensure_eq_lit(a: u32, b: u32) -> http_types::Result<u32> {
    ensure_eq_status!(a, b, 418, "oh no");
    Ok(7)
}
pub fn status_ensure_eq_expr(a: u32, b: u32, m: String) -> http_types::Result<u32> {
    ensure_eq_status!(a, b, 418, m);
    Ok(7)
}
pub fn status_ensure_eq_fmt(a: u32, b: u32) -> http_types::Result<u32> {
    ensure_eq_status!(a, b, 418, "oh no {}", a);
    Ok(7)
}
