//! Never executed.  Instantiates the generic decoder with a reader the analyser knows, so that the
//! monomorphic MIR of everything reachable from `decode_module` can be dumped, and holds the
//! Rust-level models of the few std iterator entry points whose real bodies are unsafe code.
#![feature(try_trait_v2)]
#![allow(clippy::all)]
pub mod models;

use std::io::{self, Read};
use wadec::{Module, decode_errors::DecodeModuleError};

pub struct AbsReader(u64);

impl Read for AbsReader {
    fn read(&mut self, _buf: &mut [u8]) -> io::Result<usize> {
        unimplemented!()
    }
}

pub fn entry(r: AbsReader) -> Result<Module, DecodeModuleError> {
    wadec::decode_module(r)
}

pub fn probe_source(e: &DecodeModuleError) -> Option<&(dyn std::error::Error + 'static)> {
    std::error::Error::source(e)
}

pub fn probe_display(e: &DecodeModuleError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}

