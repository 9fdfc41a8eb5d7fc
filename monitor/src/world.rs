//! Shared, read-only context of the monitors: the reference model plus what the library's own
//! tables hold (read once, through their public names).

use crate::spec::{self, Spec};
use std::sync::OnceLock;
use zk::{Condition, OpcodeVariant, Operand};
use zkevm_opcode_defs as zk;

pub struct World {
    pub spec: Spec,
    /// the library's opcode table
    pub table: Vec<OpcodeVariant>,
    /// the distinct forms in it, in order
    pub table_forms: Vec<OpcodeVariant>,
    pub conds: [Condition; 8],
    pub operands: Vec<Operand>,
}

static WORLD: OnceLock<World> = OnceLock::new();

pub fn w() -> &'static World {
    WORLD.get_or_init(|| {
        let table: Vec<OpcodeVariant> = zk::OPCODES_TABLE.iter().copied().collect();
        let mut table_forms = vec![];
        let mut seen = std::collections::HashSet::new();
        for v in table.iter() {
            if seen.insert(*v) {
                table_forms.push(*v);
            }
        }
        World { spec: Spec::new(), table, table_forms, conds: spec::conditions(), operands: spec::all_operands() }
    })
}
