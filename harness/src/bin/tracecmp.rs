//! Reads a lackey memory trace on stdin and compares, section by section, the
//! instruction and data addresses between the two markers given in a file that the
//! traced program writes ("markers <begin> <end>").
//!
//!   tracecmp <marker-file>      prints one JSON object
use std::io::{BufRead, BufReader};

fn markers(path: &str) -> Option<(u64, u64)> {
    let s = std::fs::read_to_string(path).ok()?;
    let l = s.lines().find(|l| l.starts_with("markers "))?;
    let mut w = l.split_whitespace().skip(1);
    Some((
        u64::from_str_radix(w.next()?, 16).ok()?,
        u64::from_str_radix(w.next()?, 16).ok()?,
    ))
}
#[derive(Default)]
struct Sec {
    events: Vec<u64>,
}
const CAP: usize = 60_000_000;

fn main() {
    let path = std::env::args().nth(1).unwrap();
    let mut r = BufReader::with_capacity(1 << 20, std::io::stdin());
    let mut mk: Option<(u64, u64)> = None;
    let mut line = Vec::with_capacity(128);
    let mut reference: Option<Sec> = None;
    let mut cur: Option<Sec> = None;
    let mut last_instr = 0u64;
    let (mut sections, mut instrs, mut data, mut total) = (0u64, 0u64, 0u64, 0u64);
    let mut diffs: Vec<String> = Vec::new();
    let mut ndiff = 0u64;
    let mut skipping = true; // no store to a marker can precede the first output
    loop {
        line.clear();
        if r.read_until(b'\n', &mut line).unwrap() == 0 {
            break;
        }
        total += 1;
        if line.len() < 5 || (line[0] != b'I' && line[0] != b' ') {
            continue;
        }
        if skipping && total % 4096 == 0 {
            mk = markers(&path);
            skipping = mk.is_none();
        }
        let kind = if line[0] == b'I' { b'I' } else { line[1] };
        if kind != b'I' && kind != b'L' && kind != b'S' && kind != b'M' {
            continue;
        }
        let body = &line[3..];
        let Some(comma) = body.iter().position(|&c| c == b',') else { continue };
        let mut a = 0u64;
        for &c in &body[..comma] {
            a = (a << 4)
                | match c {
                    b'0'..=b'9' => (c - b'0') as u64,
                    b'a'..=b'f' => (c - b'a' + 10) as u64,
                    b' ' => 0,
                    _ => 0,
                };
        }
        if kind == b'S' {
            if let Some((b, e)) = mk {
                if a == b {
                    cur = Some(Sec::default());
                    continue;
                }
                if a == e {
                    if let Some(s) = cur.take() {
                        sections += 1;
                        match &reference {
                            None => reference = Some(s),
                            Some(rf) => {
                                if rf.events != s.events {
                                    ndiff += 1;
                                    let n = rf.events.len().min(s.events.len());
                                    let k = (0..n).find(|&k| rf.events[k] != s.events[k]).unwrap_or(n);
                                    let back = |v: &Vec<u64>| {
                                        v[..k.min(v.len())].iter().rev().find(|x| *x >> 62 == 0).copied().unwrap_or(0)
                                    };
                                    if diffs.len() < 8 {
                                        diffs.push(format!(
                                            "{{\"section\":{},\"event\":{},\"events_reference\":{},\"events_here\":{},\"after_instruction\":\"{:x}\",\"reference_next\":\"{:x}\",\"here_next\":\"{:x}\"}}",
                                            sections - 1,
                                            k,
                                            rf.events.len(),
                                            s.events.len(),
                                            back(&rf.events),
                                            rf.events.get(k).copied().unwrap_or(0),
                                            s.events.get(k).copied().unwrap_or(0)
                                        ));
                                    }
                                }
                            }
                        }
                    }
                    continue;
                }
            }
        }
        if let Some(s) = cur.as_mut() {
            if kind == b'I' {
                instrs += 1;
                last_instr = a;
            } else {
                data += 1;
            }
            let tag = match kind {
                b'I' => 0u64,
                b'L' => 1,
                b'S' => 2,
                _ => 3,
            };
            if s.events.len() < CAP {
                s.events.push((tag << 62) | (a & ((1 << 62) - 1)));
            }
        }
    }
    let _ = last_instr;
    println!(
        "{{\"sections\":{},\"instructions\":{},\"accesses\":{},\"lines\":{},\"differing\":{},\"reference_events\":{},\"diffs\":[{}]}}",
        sections,
        instrs,
        data,
        total,
        ndiff,
        reference.map(|r| r.events.len()).unwrap_or(0),
        diffs.join(",")
    );
}
