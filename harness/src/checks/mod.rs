use crate::engine::{Env, Report};

mod bad;
mod concurrency;
mod ids;
mod inbound;
mod keepalive;
mod lifecycle;
mod marathon;
mod memory;
mod outbound;
mod qos2;

pub type Check = fn(&Env, &mut Report) -> Vec<&'static str>;

pub const ALL: &[(&str, Check)] = &[
    ("C01", outbound::c01),
    ("C02", outbound::c02),
    ("C03", concurrency::c03),
    ("C04", ids::c04),
    ("C05", ids::c05),
    ("C06", inbound::c06),
    ("C07", inbound::c07),
    ("C08", inbound::c08),
    ("C09", inbound::c09),
    ("C10", bad::c10),
    ("C11", bad::c11),
    ("C12", keepalive::c12),
    ("C13", lifecycle::c13),
    ("C14", lifecycle::c14),
    ("C15", outbound::c15),
    ("C16", lifecycle::c16),
    ("C17", lifecycle::c17),
    ("C18", qos2::c18),
    ("C19", concurrency::c19),
    ("C20", memory::c20),
];

/// What every session-level check takes for granted.
pub const BASE: &[&str] = &[
    "loopback TCP and the Linux kernel deliver bytes in order",
    "tokio, tokio-util and futures behave as documented",
    "the reference codec of the harness (wire.rs) follows the MQTT 5 specification",
    "verdicts hold for the generated cases only",
];

pub fn notes(extra: &[&'static str]) -> Vec<&'static str> {
    let mut v = BASE.to_vec();
    v.extend_from_slice(extra);
    v
}
