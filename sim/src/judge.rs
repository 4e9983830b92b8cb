//! Which findings contradict which property.
pub const ALL: [&str; 20] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C20", "C21",
];
pub fn accepts(prop: &str, tag: &str, msg: &str) -> bool {
    if tag == "abort" || tag == "hang" {
        return true;
    }
    let set: &[&str] = match prop {
        "C01" => &[
            "invalid", "range", "content", "contentref", "lost", "early", "second", "incomplete", "header", "trailer", "extra", "took",
            "overcount", "panic", "livelock", "runaway",
        ],
        "C02" => &["took", "content", "contentref", "lost", "overcount", "zero", "noprogress", "invalid", "range", "panic", "livelock"],
        "C03" => &["ref", "nondet", "crossbuild"],
        "C04" => &["oneref", "nondet"],
        "C05" => &[
            "flush", "content", "contentref", "invalid", "range", "took", "lost", "early", "second", "incomplete", "panic", "livelock",
            "noprogress", "runaway", "header",
        ],
        "C06" => &["header", "content", "contentref", "invalid", "range", "early", "extra", "trailer", "took", "lost", "after", "runaway"],
        "C07" => &[
            "incomplete", "lost", "extra", "after", "handback", "early", "trailer", "header", "content", "contentref", "invalid", "range",
            "panic", "livelock",
        ],
        "C08" => {
            if tag == "panic" {
                return msg.contains("after the writer failed");
            }
            &["spurious", "kind", "swallowed", "incomplete", "flush", "lost", "livelock"]
        }
        "C09" => &["livelock", "noprogress", "runaway", "zero", "panic"],
        "C10" => {
            if tag == "panic" || tag == "livelock" {
                return msg.starts_with("drop") || msg.starts_with("finish");
            }
            &["dropincomplete", "unwind", "content", "contentref", "invalid", "range", "extra", "trailer", "header", "after", "lost"]
        }
        "C11" => &["fresh", "checksum2", "nondet"],
        "C12" => &["checksum", "checksum2"],
        "C13" => &["panic", "panicswallow"],
        "C14" => &["memory", "stall"],
        "C15" => &["ref", "oneshot", "chain", "nondet"],
        "C16" => &["header", "trailer", "extra", "incomplete", "dropincomplete", "early"],
        "C17" => &["expansion", "runaway"],
        "C21" => &["coding"],
        "C20" => &["ratio", "expansion"],
        "C18" => {
            if tag == "invalid" {
                return msg.contains("distance") || msg.contains("length symbol");
            }
            &["mode", "range", "contentref"]
        }
        _ => &[],
    };
    set.contains(&tag)
}
