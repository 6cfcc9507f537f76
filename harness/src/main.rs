use std::collections::BTreeMap;
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};
use verif_driver::machine;

type Slot = Option<Box<dyn verif_driver::Machine>>;

/// One command on one machine.
fn step(m: &mut Slot, w: &[&str], want_repr: bool) -> String {
    if w[0] == "machine" {
        let n = if w.len() > 2 { w[2].parse().expect("TOOL: count") } else { verif_driver::REGS };
        *m = Some(machine(w[1], n).expect("TOOL: unknown machine"));
        return "ok|".into();
    }
    let mach = m.as_mut().expect("TOOL: no machine");
    let r = catch_unwind(AssertUnwindSafe(|| {
        let obs = mach.step(w);
        let st = mach.state();
        let rp = if want_repr { mach.repr() } else { String::new() };
        (obs, st, rp)
    }));
    match r {
        Ok((obs, st, rp)) => if want_repr { format!("{}|{}|{}", obs, st, rp) } else { format!("{}|{}", obs, st) },
        Err(e) => {
            let msg = e.downcast_ref::<String>().cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            format!("PANIC {}|", msg.replace('|', "/").replace('\n', " "))
        }
    }
}

/// Splits off the caller a command is for: `@3 add ...`.
fn caller(line: &str) -> (usize, &str) {
    match line.strip_prefix('@') {
        Some(rest) => {
            let (k, c) = rest.split_once(' ').expect("TOOL: caller");
            (k.parse().expect("TOOL: caller"), c)
        }
        None => (0, line),
    }
}

/// Every caller in a thread of its own, all at the same time, `rounds` times
/// over; in lockstep, one command of each at a time. One answer per line; where
/// two rounds differ, both.
fn concurrent(lines: Vec<String>, rounds: usize, lockstep: bool) -> Vec<String> {
    let mut of: BTreeMap<usize, Vec<(usize, String)>> = BTreeMap::new();
    for (i, l) in lines.iter().enumerate() {
        let (k, c) = caller(l);
        of.entry(k).or_insert_with(Vec::new).push((i, c.to_string()));
    }
    let gate = Arc::new(Barrier::new(of.len()));
    let longest = of.values().map(|l| l.len()).max().unwrap_or(0);
    let mut out = vec![String::new(); lines.len()];
    let threads: Vec<_> = of.into_iter().map(|(_, list)| {
        let gate = gate.clone();
        std::thread::spawn(move || {
            let mut got: Vec<(usize, String)> = Vec::new();
            for r in 0..rounds {
                let mut m: Slot = None;
                gate.wait();
                for (j, (i, c)) in list.iter().enumerate() {
                    let w: Vec<&str> = c.split_whitespace().collect();
                    if lockstep {
                        gate.wait();
                    }
                    let a = step(&mut m, &w, false);
                    if r == 0 {
                        got.push((*i, a));
                    } else if got[j].1 != a && !got[j].1.contains(" <> ") {
                        got[j].1 = format!("DIFFERS {} <> {}|", got[j].1.replace('|', " / "), a.replace('|', " / "));
                    }
                }
                for _ in list.len()..(if lockstep { longest } else { 0 }) {
                    gate.wait();
                }
            }
            got
        })
    }).collect();
    for t in threads {
        for (i, a) in t.join().expect("TOOL: thread") {
            out[i] = a;
        }
    }
    out
}

/// stdin: `machine <name> [registers]` resets to a fresh machine; any other line is a
/// command. stdout: one line per input line:
///   `<observation>|<state>`, `PANIC <message>|`, or `ok|`
/// With argument `repr` a third `|`-separated part has the Debug rendering.
/// Lines that begin with `@<number>` are for the caller of that number, each
/// with a machine of its own; with arguments `threads <rounds>`, each in a
/// thread of its own (`threads <rounds> lockstep`: one command at a time).
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let want_repr = args.iter().any(|a| a == "repr");
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = BufWriter::new(stdout.lock());
    if args.len() > 2 && args[1] == "threads" {
        let lines = stdin.lock().lines().map(|l| l.expect("read")).filter(|l| !l.trim().is_empty()).collect();
        for a in concurrent(lines, args[2].parse().expect("TOOL: rounds"), args.len() > 3) {
            writeln!(out, "{}", a).unwrap();
        }
        out.flush().unwrap();
        return;
    }
    let mut slots: BTreeMap<usize, Slot> = BTreeMap::new();
    for line in stdin.lock().lines() {
        let line = line.expect("read");
        if line.trim().is_empty() {
            continue;
        }
        let (k, c) = caller(&line);
        let w: Vec<&str> = c.split_whitespace().collect();
        writeln!(out, "{}", step(slots.entry(k).or_insert(None), &w, want_repr)).unwrap();
    }
    out.flush().unwrap();
}
