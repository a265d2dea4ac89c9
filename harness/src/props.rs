//! Which corpora and oracles belong to which property.
use crate::task::*;

pub struct Prop {
    pub id: &'static str,
    pub modes: u32,
    /// judge storage: leaks, and the balance of tracked values
    pub leak: bool,
    /// judge effects
    pub effects: bool,
    /// directories below corpus/
    pub dirs: &'static [&'static str],
}
const ALL: u32 = HIR | MIR | OPT;
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", modes: HIR | MIR, leak: false, effects: false, dirs: &["core", "mined"] },
    Prop { id: "C02", modes: MIR | OPT, leak: false, effects: false, dirs: &["opt", "core", "mined"] },
    Prop { id: "C03", modes: ALL, leak: false, effects: false, dirs: &["limits"] },
    Prop { id: "C04", modes: ALL, leak: true, effects: false, dirs: &["drops", "core", "mined"] },
    Prop { id: "C05", modes: ALL, leak: false, effects: false, dirs: &["int"] },
    Prop { id: "C06", modes: ALL, leak: false, effects: false, dirs: &["float"] },
    Prop { id: "C07", modes: ALL, leak: false, effects: false, dirs: &["array"] },
    Prop { id: "C08", modes: ALL, leak: false, effects: false, dirs: &["string"] },
    Prop { id: "C09", modes: ALL, leak: false, effects: false, dirs: &["hash"] },
    Prop { id: "C10", modes: ALL, leak: false, effects: false, dirs: &["order"] },
    Prop { id: "C11", modes: ALL, leak: false, effects: false, dirs: &["codec"] },
    Prop { id: "C13", modes: ALL, leak: true, effects: false, dirs: &["reuse"] },
    Prop { id: "C14", modes: ALL, leak: false, effects: false, dirs: &["flow"] },
    Prop { id: "C15", modes: ALL, leak: true, effects: false, dirs: &["place"] },
    Prop { id: "C16", modes: HIR, leak: false, effects: true, dirs: &["effects", "core", "mined"] },
    Prop { id: "C17", modes: ALL, leak: true, effects: false, dirs: &["types"] },
    Prop { id: "C18", modes: ALL, leak: false, effects: false, dirs: &["update"] },
    Prop { id: "C19", modes: ALL, leak: false, effects: false, dirs: &["ide"] },
    Prop { id: "C12", modes: ALL, leak: false, effects: false, dirs: &["front"] },
];
pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
