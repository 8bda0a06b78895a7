//! Exclusions for defects listed in /verif/known_findings.jsonl as known (not fixed).

use polling::Event;

/// None at present.
pub fn disarmed_hup(_e: &Event, _u: i16) -> bool {
    false
}
