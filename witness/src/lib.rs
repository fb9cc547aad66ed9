//! Never executed: type-checks exactly when modules and errors are Send, Sync and 'static.
use std::error::Error;
use wadec::core::{Instruction, SectionKind};
use wadec::{Module, decode_errors::DecodeModuleError, decode_module};

fn shared<T: Send + Sync + 'static>() {}

pub fn types() {
    shared::<Module>();
    shared::<DecodeModuleError>();
    shared::<Result<Module, DecodeModuleError>>();
    shared::<Instruction>();
    shared::<SectionKind>();
}

pub fn boxed(e: DecodeModuleError) -> Box<dyn Error + Send + Sync + 'static> {
    Box::new(e)
}

pub fn outlives() -> Result<Module, DecodeModuleError> {
    let input = vec![0u8; 8];
    decode_module(&input[..])
}

pub fn threads(input: &[u8]) {
    let r = decode_module(input);
    let h = std::thread::spawn(move || r.is_ok());
    let _ = h.join();
}

pub fn by_reference(m: &'static Module, e: &'static DecodeModuleError) {
    std::thread::spawn(move || (m as *const _ as usize, e.to_string()));
}
