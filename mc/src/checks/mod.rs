//! One module per group of properties; `units` assembles the choice trees of one property.
use crate::explore::Unit;

pub mod c01;
pub mod errors;
pub mod frames;
pub mod gen;
pub mod history;
pub mod history2;
pub mod history3;
pub mod history4;
pub mod messages;
pub mod strict;
pub mod stream;
pub mod text;
pub mod values;

pub fn units(id: &str, deep: bool) -> Vec<Unit> {
    let mut u = vec![];
    match id {
        "C01" => u.extend(c01::units(deep)),
        "C02" => {
            u.extend(values::round_trip(deep));
            u.push(strict::tails(deep));
        }
        "C03" => u.extend(frames::round_trip(deep)),
        "C04" => u.extend(messages::round_trip(deep)),
        "C05" => {
            u.extend(values::sizes(deep));
            u.extend(frames::sizes(deep));
            u.extend(messages::sizes(deep));
        }
        "C06" => u.extend(stream::chunking(deep)),
        "C07" => u.extend(stream::rejected(deep)),
        "C08" => u.extend(stream::protocol_header(deep)),
        "C09" => {
            u.extend(values::truncation(deep));
        }
        "C10" => {
            u.extend(values::standard(deep));
            u.extend(frames::standard(deep));
            u.extend(messages::standard(deep));
        }
        "C11" => {
            u.extend(values::alternatives(deep));
            u.push(strict::tails(deep));
            u.push(strict::long_fields());
            u.extend(frames::alternatives(deep));
        }
        "C12" => {
            u.extend(strict::absent(deep));
            u.push(strict::long_fields());
        }
        "C13" => u.extend(strict::windows(deep)),
        "C14" => u.extend(text::units(deep)),
        "C15" => u.extend(frames::appends(deep)),
        "C16" => u.extend(messages::accessors(deep)),
        "C17" => {
            u.extend(frames::observing(deep));
            u.extend(messages::observing(deep));
        }
        "C18" => u.extend(strict::schema(deep)),
        "C19" => u.extend(strict::timestamps(deep)),
        "C20" => u.extend(stream::framed(deep)),
        "C21" => u.extend(frames::accessors(deep)),
        "C22" => u.extend(gen::units(deep)),
        "C23" => u.extend(history::units(deep)),
        "C24" => u.extend(errors::units(deep)),
        _ => {
            eprintln!("no property {}", id);
            std::process::exit(2);
        }
    }
    u
}

/// Defects that are recorded rather than repaired: re-established on every run.
pub fn findings(id: &str, deep: bool) -> (Vec<String>, Option<(String, String)>) {
    match id {
        "C01" => c01::findings(deep),
        _ => (vec![], None),
    }
}
