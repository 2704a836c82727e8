//! The parser of ruruby-parse is generic over its caller context, so its code is compiled in the
//! crate that uses it. This crate does nothing but use it, which puts all of that code in one
//! instrumented place.
pub use ruruby_parse::{
    Loc, LocalsContext, LvarCollector, ParseErr, ParseErrKind, ParseResult, Parser, SourceInfo,
};
use std::path::PathBuf;

/// The caller's frames, as a callback.
pub struct Ctx<'a>(pub &'a dyn Fn(&str) -> Option<usize>);

impl<'a> LocalsContext for Ctx<'a> {
    fn find_lvar(&self, id: &str) -> Option<usize> {
        (self.0)(id)
    }
}

#[inline(never)]
pub fn program(code: String, path: PathBuf) -> Result<ParseResult, ParseErr> {
    Parser::parse_program(code, path)
}

#[inline(never)]
pub fn eval(code: String, path: PathBuf, ctx: Option<&Ctx>) -> Result<ParseResult, ParseErr> {
    Parser::parse_program_eval(code, path, ctx)
}

#[inline(never)]
pub fn binding(
    code: String,
    path: PathBuf,
    table: Option<LvarCollector>,
    ctx: Option<&Ctx>,
) -> Result<ParseResult, ParseErr> {
    Parser::parse_program_binding(code, path, table, ctx)
}
