//! The properties.

mod cli;
mod instr;
mod module;
mod parse;
mod prim;
mod robust;
pub mod valid;

use crate::engine::Property;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"];

pub fn get(id: &str) -> Option<Property> {
    Some(match id {
        "C01" => parse::c01(),
        "C02" => parse::c02(),
        "C03" => prim::c03(),
        "C04" => prim::c04(),
        "C05" => prim::c05(),
        "C06" => prim::c06(),
        "C07" => prim::c07(),
        "C08" => robust::c08(),
        "C09" => parse::c09(),
        "C10" => parse::c10(),
        "C11" => parse::c11(),
        "C12" => valid::c12(),
        "C13" => valid::c13(),
        "C14" => instr::c14(),
        "C15" => instr::c15(),
        "C16" => module::c16(),
        "C17" => module::c17(),
        "C18" => module::c18(),
        "C19" => instr::c19(),
        "C20" => valid::c20(),
        "C21" => valid::c21(),
        "C22" => instr::c22(),
        "C23" => parse::c23(),
        "C24" => cli::c24(),
        "C25" => robust::c25(),
        _ => return None,
    })
}

pub use robust::known_child;
