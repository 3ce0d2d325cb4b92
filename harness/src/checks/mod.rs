use crate::engine::Check;

mod bitstream;
mod cursor;
mod hostile;
mod llvmtools;
mod module;
mod purity;
mod support;

pub const ALL: &[Check] = &[
    cursor::C01,
    cursor::C02,
    cursor::C03,
    cursor::C04,
    bitstream::C05,
    bitstream::C06,
    bitstream::C07,
    bitstream::C08,
    bitstream::C09,
    bitstream::C10,
    bitstream::C11,
    module::C12,
    module::C13,
    module::C14,
    module::C15,
    module::C16,
    module::C17,
    module::C18,
    module::C19,
    support::C20,
    support::C21,
    support::C22,
    support::C23,
    support::C24,
    support::C25,
    hostile::C26,
    llvmtools::C27,
    purity::C28,
];

/// The defaults that most checks share.
pub const BASE: Check = Check {
    id: "",
    rule: "",
    quick: 0,
    thorough: 0,
    fixed: 0,
    run: |_, _| Ok(()),
    stack: 2 << 20,
    probes: &[],
};
