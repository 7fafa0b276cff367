//! Driver for the display feature: prints the report or the raw dump of the
//! CPU of every case on standard output, between marker lines.
//!
//!   cpuid-display run CASES.ndjson
//!
//! If a case has a second CPU, it answers the reader once the `CpuId` object has
//! been made on the first (with `flip`: after that many reads).
//!
//! A `program` case runs the command line program (CPUID_BIN) with the
//! arguments `args`, with its CPU simulated (CPUSIM_LIB, through the file `file`).
//! If it has no CPU, the program runs on the real one, and what that is is
//! written to the file `file`: the registers of `leaves` and of every advertised
//! leaf, read with the instruction before and after (null if they never agree).
//!
//! A marker is \x01 followed by `BEGIN id`, `END` or `PANIC`.  gen/report.py
//! runs this under a wide pseudo terminal, reads the output and records what
//! spec/Report.tla judges.
use raw_cpuid::{display, CpuId, CpuIdReader, CpuIdResult};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type Machine = HashMap<u32, Vec<[u32; 4]>>;

const BUDGET: u32 = 200_000;

#[derive(Clone)]
struct Rdr(Rc<(Vec<Machine>, Cell<usize>, Cell<u32>, u32)>);

impl CpuIdReader for Rdr {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        let left = self.0 .2.get();
        assert!(left > 0, "the call does not end");
        self.0 .2.set(left - 1);
        if BUDGET - left == self.0 .3 {
            self.0 .1.set(self.0 .0.len() - 1);
        }
        let r = match self.0 .0[self.0 .1.get()].get(&eax) {
            None => [0; 4],
            Some(subs) => subs[(ecx as usize).min(subs.len() - 1)],
        };
        CpuIdResult {
            eax: r[0],
            ebx: r[1],
            ecx: r[2],
            edx: r[3],
        }
    }
}

fn machine(v: &Value) -> Machine {
    let mut m = Machine::new();
    for (k, subs) in v.as_object().expect("machine") {
        let leaf = u32::from_str_radix(&k[1..], 16).expect("leaf");
        let subs = subs
            .as_array()
            .expect("sub-leaves")
            .iter()
            .map(|s| {
                let l: Vec<u32> = s
                    .as_array()
                    .expect("limbs")
                    .iter()
                    .map(|x| x.as_u64().expect("limb") as u32)
                    .collect();
                [
                    l[0] | l[1] << 16,
                    l[2] | l[3] << 16,
                    l[4] | l[5] << 16,
                    l[6] | l[7] << 16,
                ]
            })
            .collect();
        m.insert(leaf, subs);
    }
    m
}

/// What the CPU that runs this answers, found without the crate.
fn native_machine(leaves: &[u32]) -> Value {
    use std::arch::x86_64::__cpuid_count;
    #[allow(unused_unsafe)]
    let row = |leaf: u32, sub: u32| unsafe { __cpuid_count(leaf, sub) };
    let limb = |w: u32| [w & 0xffff, w >> 16];
    let mut all: Vec<u32> = leaves.to_vec();
    for base in [0, 0x4000_0000, 0x8000_0000] {
        let top = row(base, 0).eax;
        if top >= base {
            all.extend(base..=top.min(base + 0x2000));
        }
    }
    let mut m = serde_json::Map::new();
    for leaf in all {
        let subs = if leaf < 0x100 || leaf >= 0x8000_0000 {
            66
        } else {
            1
        };
        let rows: Vec<Value> = (0..subs)
            .map(|s| {
                let r = row(leaf, s);
                json!([limb(r.eax), limb(r.ebx), limb(r.ecx), limb(r.edx)].concat())
            })
            .collect();
        m.insert(format!("L{leaf:X}"), Value::Array(rows));
    }
    Value::Object(m)
}

/// Runs the command line program on this terminal.
fn program(case: &Value) {
    let text = |v: &Value| v.as_str().expect("text").to_string();
    let sim = case.get("m").map(|ms| machine(&ms[0]));
    let leaves: Vec<u32> = case
        .get("leaves")
        .and_then(|l| l.as_array())
        .unwrap_or(&vec![])
        .iter()
        .map(|l| u32::from_str_radix(&text(l)[1..], 16).expect("leaf"))
        .collect();
    let args: Vec<String> = case["args"]
        .as_array()
        .expect("args")
        .iter()
        .map(text)
        .collect();
    let before = match sim {
        None => native_machine(&leaves),
        Some(_) => Value::Null,
    };
    println!("\n\x01BEGIN {}", text(&case["id"]));
    std::io::stdout().flush().expect("flush");
    let mut cmd = std::process::Command::new(std::env::var("CPUID_BIN").expect("CPUID_BIN"));
    cmd.args(args).stdin(std::process::Stdio::null());
    if let Some(m) = &sim {
        let mut table = String::new();
        for (leaf, subs) in m {
            for (i, r) in subs.iter().enumerate() {
                table += &format!(
                    "{leaf:x} {i:x} {:x} {:x} {:x} {:x}\n",
                    r[0], r[1], r[2], r[3]
                );
            }
        }
        std::fs::write(text(&case["file"]), table).expect("table");
        cmd.env(
            "LD_PRELOAD",
            std::env::var("CPUSIM_LIB").expect("CPUSIM_LIB"),
        )
        .env("CPUSIM_FILE", text(&case["file"]));
    }
    let r = if case.get("pipe").is_some() {
        let o = cmd
            .stdout(std::process::Stdio::piped())
            .output()
            .expect("tool error: running the program");
        std::io::stdout().write_all(&o.stdout).expect("output");
        o.status
    } else {
        cmd.status().expect("tool error: running the program")
    };
    println!("\n\x01{}", if r.success() { "END" } else { "PANIC" });
    std::io::stdout().flush().expect("flush");
    if sim.is_some() {
        return;
    }
    let m = if native_machine(&leaves) == before {
        before
    } else {
        Value::Null
    };
    std::fs::write(text(&case["file"]), m.to_string()).expect("file");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) != Some("run") {
        eprintln!("usage: cpuid-display run CASES");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let inp = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("cases"));
    for line in inp.lines() {
        let line = line.expect("line");
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("json");
        if case["what"] == "program" {
            program(&case);
            continue;
        }
        let ms: Vec<Machine> = case["m"]
            .as_array()
            .expect("m")
            .iter()
            .map(machine)
            .collect();
        let last = ms.len() - 1;
        let flip = case.get("flip").and_then(|n| n.as_u64());
        let rdr = Rdr(Rc::new((
            ms,
            Cell::new(0),
            Cell::new(BUDGET),
            flip.unwrap_or(u64::MAX) as u32,
        )));
        println!("\n\x01BEGIN {}", case["id"].as_str().expect("id"));
        let r = catch_unwind(AssertUnwindSafe(|| match case["what"].as_str() {
            Some("report") => {
                let cpuid = CpuId::with_cpuid_reader(rdr.clone());
                if flip.is_none() {
                    rdr.0 .1.set(last);
                }
                display::markdown(cpuid)
            }
            Some("raw") => display::raw(rdr),
            _ => std::process::exit(2),
        }));
        println!("\n\x01{}", if r.is_ok() { "END" } else { "PANIC" });
        std::io::stdout().flush().expect("flush");
    }
}
