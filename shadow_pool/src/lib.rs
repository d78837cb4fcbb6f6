//! The parser of the vdev specification, as the command line utility includes it.
#![allow(dead_code, unused_imports)]
#[path = "/repo/bfffs/src/bin/bfffs/pool_create_ast.rs"]
mod pool_create_ast;
mod pool {
    use lalrpop_util::lalrpop_mod;
    lalrpop_mod!(pub pool_create_parser);
}
