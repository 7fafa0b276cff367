//! Conformance driver: replays call sequences (cases) against the real crate
//! and records what every call returned, for validation by spec/Trace.tla.
//!
//!   cpuid-conformance run CASES.ndjson TRACES.ndjson
//!   cpuid-conformance meta
//!   cpuid-conformance sim
mod enc;
#[path = "../../harness-sim/src/fault.rs"]
mod fault;
mod fields;
mod text;

use fields::Fields;
use raw_cpuid::*;
use serde_json::{json, Map, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Debug;
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

type Machine = HashMap<u32, Vec<[u32; 4]>>;

/// What is behind the reader: the machines of the case, and the one that
/// currently answers.
pub struct Cpu {
    machines: Vec<Machine>,
    current: AtomicUsize,
}

const BUDGET: u32 = 200_000;

thread_local! {
    /// The leaves that this thread executed during the call
    static READS: RefCell<BTreeSet<u32>> = const { RefCell::new(BTreeSet::new()) };
    /// How many reads its call may still do
    static LEFT: Cell<u32> = const { Cell::new(BUDGET) };
    /// After how many reads of the call which machine answers
    static FLIP: Cell<Option<(u32, usize)>> = const { Cell::new(None) };
    /// The CPU that this thread's CPUID instructions are about, if not the real one
    static SIMULATED: RefCell<Option<Arc<Cpu>>> = const { RefCell::new(None) };
}

struct OutOfBudget;

#[derive(Clone)]
pub struct Rdr(Arc<Cpu>);

impl Cpu {
    fn row(&self, eax: u32, ecx: u32) -> [u32; 4] {
        match self.machines[self.current.load(Ordering::Relaxed)].get(&eax) {
            None => [0; 4],
            Some(subs) => subs[(ecx as usize).min(subs.len() - 1)],
        }
    }
}

/// What the CPUID instruction answers in cases marked `sim`: the same as the
/// reader does.
fn simulated(eax: u32, ecx: u32) -> [u32; 4] {
    let left = LEFT.get();
    if left == 0 {
        return [0; 4];
    }
    LEFT.set(left - 1);
    READS.with_borrow_mut(|r| r.insert(eax));
    SIMULATED.with_borrow(|cpu| cpu.as_ref().map_or([0; 4], |c| c.row(eax, ecx)))
}

impl CpuIdReader for Rdr {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        let cpu = &self.0;
        let left = LEFT.get();
        if left == 0 {
            std::panic::panic_any(OutOfBudget);
        }
        LEFT.set(left - 1);
        READS.with_borrow_mut(|r| r.insert(eax));
        if let Some((n, i)) = FLIP.get() {
            if n == 0 {
                cpu.current.store(i, Ordering::Relaxed);
            }
            FLIP.set(n.checked_sub(1).map(|n| (n, i)));
        }
        let r = cpu.row(eax, ecx);
        CpuIdResult {
            eax: r[0],
            ebx: r[1],
            ecx: r[2],
            edx: r[3],
        }
    }
}

fn panic_code(p: Box<dyn std::any::Any + Send>) -> Vec<i64> {
    if p.is::<OutOfBudget>() {
        vec![-2]
    } else {
        vec![-1]
    }
}

/// The value of an accessor, or the code of a panic.
pub fn guard(f: impl FnOnce() -> Vec<i64>) -> Vec<i64> {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(panic_code)
}

/// Something a handle of the case denotes.
trait Held {
    /// Does operation `op` make sense for it?
    fn can(&self, op: &Value) -> bool;
    fn read(&self) -> Vec<Vec<i64>> {
        panic!("tool error: not a view")
    }
    fn sub(&self, _q: &str) -> Option<Box<dyn Held>> {
        panic!("tool error: no such query")
    }
    fn next(&mut self) -> Option<Vec<Vec<i64>>> {
        panic!("tool error: not an iterator")
    }
    /// Calls next n times; how many items there were.
    fn skip(&mut self, n: usize) -> usize {
        (0..n).filter(|_| self.next().is_some()).count()
    }
    fn dup(&self) -> Box<dyn Held> {
        panic!("tool error: not a cloneable iterator")
    }
    /// What a copy of the iterator returns when it is used in another way.
    fn peek(&self, _how: &str, _n: usize) -> Vec<Vec<i64>> {
        panic!("tool error: not a cloneable iterator")
    }
    /// Builds the debug representation.
    fn debug(&self) -> usize;
    /// What the debug representations say; None if there is none.
    fn show(&self) -> Option<(Value, bool)>;
    /// The display texts of the view and its enumerated values.
    fn texts(&self) -> Vec<Value> {
        panic!("tool error: not a view")
    }
    /// Is it equal to the other view?  None if that cannot be asked.
    fn same(&self, _other: &dyn Held) -> Option<bool> {
        None
    }
    fn any(&self) -> &dyn std::any::Any;
    /// Like next, but keeps the item.
    fn take(&mut self) -> Option<Box<dyn Held>> {
        panic!("tool error: not an iterator")
    }
}

struct Plain<T>(T);
impl<T: Fields + Debug + 'static> Held for Plain<T> {
    fn can(&self, op: &Value) -> bool {
        matches!(
            op["op"].as_str(),
            Some("read" | "dbg" | "show" | "text" | "eq")
        )
    }
    fn read(&self) -> Vec<Vec<i64>> {
        self.0.values()
    }
    fn debug(&self) -> usize {
        format!("{:?} {:#?}", self.0, self.0).len()
    }
    fn show(&self) -> Option<(Value, bool)> {
        Some(text::trees(&self.0))
    }
    fn texts(&self) -> Vec<Value> {
        self.0.texts()
    }
    fn same(&self, other: &dyn Held) -> Option<bool> {
        self.0.same(&other.any().downcast_ref::<Self>()?.0)
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}

fn held<T: Fields + Debug + 'static>(v: Option<T>) -> Option<Box<dyn Held>> {
    v.map(|v| Box::new(Plain(v)) as Box<dyn Held>)
}

/// Views with sub-queries.
struct Queried<T>(T);
trait Queries {
    const QUERIES: &'static [&'static str];
    fn query(&self, q: &str) -> Option<Box<dyn Held>>;
}
impl<T: Fields + Debug + Queries + 'static> Held for Queried<T> {
    fn can(&self, op: &Value) -> bool {
        match op["op"].as_str() {
            Some("read" | "dbg" | "show" | "text" | "eq") => true,
            Some("sub") => T::QUERIES.contains(&op["q"].as_str().unwrap_or("")),
            _ => false,
        }
    }
    fn read(&self) -> Vec<Vec<i64>> {
        self.0.values()
    }
    fn sub(&self, q: &str) -> Option<Box<dyn Held>> {
        self.0.query(q)
    }
    fn debug(&self) -> usize {
        format!("{:?} {:#?}", self.0, self.0).len()
    }
    fn show(&self) -> Option<(Value, bool)> {
        Some(text::trees(&self.0))
    }
    fn texts(&self) -> Vec<Value> {
        self.0.texts()
    }
    fn same(&self, other: &dyn Held) -> Option<bool> {
        self.0.same(&other.any().downcast_ref::<Self>()?.0)
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}
fn queried<T: Fields + Debug + Queries + 'static>(v: Option<T>) -> Option<Box<dyn Held>> {
    v.map(|v| Box::new(Queried(v)) as Box<dyn Held>)
}

impl<R: CpuIdReader + 'static> Queries for RdtMonitoringInfo<R> {
    const QUERIES: &'static [&'static str] = &["l3_monitoring"];
    fn query(&self, q: &str) -> Option<Box<dyn Held>> {
        match q {
            "l3_monitoring" => held(self.l3_monitoring()),
            _ => panic!("tool error: no such query"),
        }
    }
}
impl<R: CpuIdReader + 'static> Queries for RdtAllocationInfo<R> {
    const QUERIES: &'static [&'static str] = &["l3_cat", "l2_cat", "memory_bandwidth_allocation"];
    fn query(&self, q: &str) -> Option<Box<dyn Held>> {
        match q {
            "l3_cat" => held(self.l3_cat()),
            "l2_cat" => held(self.l2_cat()),
            "memory_bandwidth_allocation" => held(self.memory_bandwidth_allocation()),
            _ => panic!("tool error: no such query"),
        }
    }
}
impl<R: CpuIdReader + 'static> Queries for SoCVendorInfo<R> {
    const QUERIES: &'static [&'static str] = &["get_vendor_brand", "get_vendor_attributes"];
    fn query(&self, q: &str) -> Option<Box<dyn Held>> {
        match q {
            "get_vendor_brand" => held(self.get_vendor_brand()),
            "get_vendor_attributes" => self
                .get_vendor_attributes()
                .map(|i| Box::new(OnceIt(i)) as Box<dyn Held>),
            _ => panic!("tool error: no such query"),
        }
    }
}
impl<R: CpuIdReader + 'static> Queries for ExtendedStateInfo<R> {
    const QUERIES: &'static [&'static str] = &["iter"];
    fn query(&self, q: &str) -> Option<Box<dyn Held>> {
        match q {
            "iter" => iter(Some(self.iter())),
            _ => panic!("tool error: no such query"),
        }
    }
}
impl<R: CpuIdReader + 'static> Queries for SgxInfo<R> {
    const QUERIES: &'static [&'static str] = &["iter"];
    fn query(&self, q: &str) -> Option<Box<dyn Held>> {
        match q {
            "iter" => Some(Box::new(SgxIt(self.iter()))),
            _ => panic!("tool error: no such query"),
        }
    }
}
impl<R: CpuIdReader + 'static> Queries for PqosExtendedFeatureInfo<R> {
    const QUERIES: &'static [&'static str] = &[
        "get_l3_memory_bandwidth_enforcement_info",
        "get_l3_slow_memory_bandwidth_enforcement_info",
        "get_bandwidth_monitoring_event_counters_info",
        "get_assignable_bandwidth_monitoring_counters_info",
    ];
    fn query(&self, q: &str) -> Option<Box<dyn Held>> {
        match q {
            "get_l3_memory_bandwidth_enforcement_info" => {
                held(self.get_l3_memory_bandwidth_enforcement_info())
            }
            "get_l3_slow_memory_bandwidth_enforcement_info" => {
                held(self.get_l3_slow_memory_bandwidth_enforcement_info())
            }
            "get_bandwidth_monitoring_event_counters_info" => {
                held(self.get_bandwidth_monitoring_event_counters_info())
            }
            "get_assignable_bandwidth_monitoring_counters_info" => {
                held(self.get_assignable_bandwidth_monitoring_counters_info())
            }
            _ => panic!("tool error: no such query"),
        }
    }
}

/// The ways to use an iterator other than calling next.
fn consume<I: Iterator>(
    mut it: I,
    how: &str,
    n: usize,
    values: impl Fn(I::Item) -> Vec<Vec<i64>>,
) -> Vec<Vec<i64>> {
    match how {
        "count" => vec![enc::num(it.count() as u128)],
        "last" => it.last().map_or(vec![], values),
        "nth" => it.nth(n).map_or(vec![], values),
        "fold" => it.fold(vec![], |mut all, i| {
            all.extend(values(i));
            all
        }),
        "after" => {
            it.nth(n);
            it.fold(vec![], |mut all, i| {
                all.extend(values(i));
                all
            })
        }
        "past" => {
            while it.next().is_some() {}
            vec![enc::num(
                (0..n).filter(|_| it.next().is_some()).count() as u128
            )]
        }
        "hint" => {
            let (lo, hi) = it.size_hint();
            vec![vec![
                lo.min(1_000_000) as i64,
                hi.map_or(2_000_000, |h| h.min(1_000_000)) as i64,
            ]]
        }
        _ => panic!("tool error: no such way {how}"),
    }
}

/// Iterators that can be cloned.
struct It<I>(I);
impl<I> Held for It<I>
where
    I: Iterator + Clone + Debug + 'static,
    I::Item: Fields + Debug + 'static,
{
    fn take(&mut self) -> Option<Box<dyn Held>> {
        held(self.0.next())
    }
    fn show(&self) -> Option<(Value, bool)> {
        Some(text::trees(&self.0))
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn can(&self, op: &Value) -> bool {
        matches!(
            op["op"].as_str(),
            Some("next" | "drain" | "skip" | "citer" | "peek" | "dbg" | "show")
        )
    }
    fn next(&mut self) -> Option<Vec<Vec<i64>>> {
        self.0.next().map(|i| i.values())
    }
    fn peek(&self, how: &str, n: usize) -> Vec<Vec<i64>> {
        consume(self.0.clone(), how, n, |i| i.values())
    }
    fn dup(&self) -> Box<dyn Held> {
        Box::new(It(self.0.clone()))
    }
    fn debug(&self) -> usize {
        format!("{:?} {:#?}", self.0, self.0).len()
    }
}
fn iter<I>(i: Option<I>) -> Option<Box<dyn Held>>
where
    I: Iterator + Clone + Debug + 'static,
    I::Item: Fields + Debug + 'static,
{
    i.map(|i| Box::new(It(i)) as Box<dyn Held>)
}

struct OnceIt<R: CpuIdReader>(SoCVendorAttributesIter<R>);
impl<R: CpuIdReader + 'static> Held for OnceIt<R> {
    fn take(&mut self) -> Option<Box<dyn Held>> {
        held(self.0.next())
    }
    fn show(&self) -> Option<(Value, bool)> {
        Some(text::trees(&self.0))
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn can(&self, op: &Value) -> bool {
        matches!(
            op["op"].as_str(),
            Some("next" | "drain" | "skip" | "dbg" | "show")
        )
    }
    fn next(&mut self) -> Option<Vec<Vec<i64>>> {
        self.0.next().map(|i| i.values())
    }
    fn debug(&self) -> usize {
        format!("{:?}", self.0).len()
    }
}

/// Has no debug representation.
struct AmdTopoIt<R: CpuIdReader>(ExtendedCpuTopologyIter<R>);
impl<R: CpuIdReader + 'static> Held for AmdTopoIt<R> {
    fn take(&mut self) -> Option<Box<dyn Held>> {
        held(self.0.next())
    }
    fn show(&self) -> Option<(Value, bool)> {
        None
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn can(&self, op: &Value) -> bool {
        matches!(
            op["op"].as_str(),
            Some("next" | "drain" | "skip" | "citer" | "peek" | "dbg" | "show")
        )
    }
    fn next(&mut self) -> Option<Vec<Vec<i64>>> {
        self.0.next().map(|i| i.values())
    }
    fn peek(&self, how: &str, n: usize) -> Vec<Vec<i64>> {
        consume(self.0.clone(), how, n, |i| i.values())
    }
    fn dup(&self) -> Box<dyn Held> {
        Box::new(AmdTopoIt(self.0.clone()))
    }
    fn debug(&self) -> usize {
        self.0.clone().map(|i| format!("{:?}", i).len()).sum()
    }
}

struct SgxIt<R: CpuIdReader>(SgxSectionIter<R>);
impl<R: CpuIdReader + 'static> Held for SgxIt<R> {
    fn take(&mut self) -> Option<Box<dyn Held>> {
        held(self.0.next().map(|s| {
            let SgxSectionInfo::Epc(e) = s;
            e
        }))
    }
    fn show(&self) -> Option<(Value, bool)> {
        Some(text::trees(&self.0))
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn can(&self, op: &Value) -> bool {
        matches!(
            op["op"].as_str(),
            Some("next" | "drain" | "skip" | "citer" | "peek" | "dbg" | "show")
        )
    }
    fn next(&mut self) -> Option<Vec<Vec<i64>>> {
        self.0.next().map(|s| {
            let SgxSectionInfo::Epc(e) = s;
            e.values()
        })
    }
    fn peek(&self, how: &str, n: usize) -> Vec<Vec<i64>> {
        consume(self.0.clone(), how, n, |s| {
            let SgxSectionInfo::Epc(e) = s;
            e.values()
        })
    }
    fn dup(&self) -> Box<dyn Held> {
        Box::new(SgxIt(self.0.clone()))
    }
    fn debug(&self) -> usize {
        format!("{:?}", self.0).len()
    }
}

/// A CpuId object, over any reader.
trait Object {
    fn query(&self, g: &str) -> Option<Box<dyn Held>>;
    fn dup(&self) -> Box<dyn Object>;
    fn debug(&self) -> usize;
    fn show(&self) -> (Value, bool);
}
impl<R: CpuIdReader + 'static> Object for CpuId<R> {
    fn query(&self, g: &str) -> Option<Box<dyn Held>> {
        get(self, g)
    }
    fn dup(&self) -> Box<dyn Object> {
        Box::new(self.clone())
    }
    fn debug(&self) -> usize {
        format!("{:?} {:#?}", self, self).len()
    }
    fn show(&self) -> (Value, bool) {
        text::trees(self)
    }
}

fn get<R: CpuIdReader + 'static>(id: &CpuId<R>, g: &str) -> Option<Box<dyn Held>> {
    match g {
        "vendor_info" => held(id.get_vendor_info()),
        "feature_info" => held(id.get_feature_info()),
        "cache_info" => iter(id.get_cache_info()),
        "processor_serial" => held(id.get_processor_serial()),
        "cache_parameters" => iter(id.get_cache_parameters()),
        "monitor_mwait_info" => held(id.get_monitor_mwait_info()),
        "thermal_power_info" => held(id.get_thermal_power_info()),
        "extended_feature_info" => held(id.get_extended_feature_info()),
        "direct_cache_access_info" => held(id.get_direct_cache_access_info()),
        "performance_monitoring_info" => held(id.get_performance_monitoring_info()),
        "extended_topology_info" => iter(id.get_extended_topology_info()),
        "extended_topology_info_v2" => iter(id.get_extended_topology_info_v2()),
        "extended_state_info" => queried(id.get_extended_state_info()),
        "rdt_monitoring_info" => queried(id.get_rdt_monitoring_info()),
        "rdt_allocation_info" => queried(id.get_rdt_allocation_info()),
        "sgx_info" => queried(id.get_sgx_info()),
        "processor_trace_info" => held(id.get_processor_trace_info()),
        "tsc_info" => held(id.get_tsc_info()),
        "processor_frequency_info" => held(id.get_processor_frequency_info()),
        "soc_vendor_info" => queried(id.get_soc_vendor_info()),
        "deterministic_address_translation_info" => {
            iter(id.get_deterministic_address_translation_info())
        }
        "hypervisor_info" => held(id.get_hypervisor_info()),
        "extended_processor_and_feature_identifiers" => {
            held(id.get_extended_processor_and_feature_identifiers())
        }
        "processor_brand_string" => held(id.get_processor_brand_string()),
        "l1_cache_and_tlb_info" => held(id.get_l1_cache_and_tlb_info()),
        "l2_l3_cache_and_tlb_info" => held(id.get_l2_l3_cache_and_tlb_info()),
        "advanced_power_mgmt_info" => held(id.get_advanced_power_mgmt_info()),
        "processor_capacity_feature_info" => held(id.get_processor_capacity_feature_info()),
        "svm_info" => held(id.get_svm_info()),
        "tlb_1gb_page_info" => held(id.get_tlb_1gb_page_info()),
        "performance_optimization_info" => held(id.get_performance_optimization_info()),
        "instruction_based_sampling_capabilities" => {
            held(id.get_instruction_based_sampling_capabilities())
        }
        "processor_topology_info" => held(id.get_processor_topology_info()),
        "memory_encryption_info" => held(id.get_memory_encryption_info()),
        "pqos_extended_feature_info" => queried(id.get_pqos_extended_feature_info()),
        "extended_feature_identification_2" => held(id.get_extended_feature_identification_2()),
        "extended_performance_monitoring_and_debug" => {
            held(id.get_extended_performance_monitoring_and_debug())
        }
        "multi_key_encrypted_memory_capabilities" => {
            held(id.get_multi_key_encrypted_memory_capabilities())
        }
        "extended_cpu_topology" => id
            .get_extended_cpu_topology()
            .map(|i| Box::new(AmdTopoIt(i)) as Box<dyn Held>),
        _ => panic!("tool error: no such getter {g}"),
    }
}

/// Executes CPUID directly, in every way the crate offers.
fn exec(cpu: &Arc<Cpu>, how: &str, leaf: u32, sub: u32) -> CpuIdResult {
    let rdr = Rdr(cpu.clone());
    let f = move |a, c| rdr.cpuid2(a, c);
    let rdr = Rdr(cpu.clone());
    match how {
        "reader1" => rdr.cpuid1(leaf),
        "reader2" => rdr.cpuid2(leaf, sub),
        "closure1" => CpuIdReader::cpuid1(&f, leaf),
        "closure2" => CpuIdReader::cpuid2(&f, leaf, sub),
        "stored1" => stored(rdr.cpuid1(leaf)),
        "stored2" => stored(rdr.cpuid2(leaf, sub)),
        "macro1" => cpuid!(leaf),
        "macro2" => cpuid!(leaf, sub),
        "macro-wide" => cpuid!(leaf as u64, sub as i64),
        "count" => native_cpuid::cpuid_count(leaf, sub),
        "native1" => CpuIdReaderNative.cpuid1(leaf),
        "native2" => CpuIdReaderNative.cpuid2(leaf, sub),
        _ => panic!("tool error: no such instruction {how}"),
    }
}

#[cfg(not(feature = "serialize"))]
fn stored(_: CpuIdResult) -> CpuIdResult {
    panic!("tool error: built without serialization")
}

/// The registers, written out and read back.
#[cfg(feature = "serialize")]
fn stored(r: CpuIdResult) -> CpuIdResult {
    let text = serde_json::to_string(&r).expect("serialize");
    let tree = serde_json::to_value(r).expect("serialize");
    let a: CpuIdResult = serde_json::from_str(&text).expect("deserialize");
    let b: CpuIdResult = serde_json::from_value(tree).expect("deserialize");
    let bytes = bincode::serialize(&r).expect("serialize");
    let c: CpuIdResult = bincode::deserialize(&bytes).expect("deserialize");
    assert!(
        a == b && a == c,
        "the stored registers depend on the format"
    );
    // many of them in a row
    let row = bincode::serialize(&vec![r, a, b]).expect("serialize");
    let row: Vec<CpuIdResult> = bincode::deserialize(&row).expect("deserialize");
    assert!(
        row == [a, b, c],
        "the stored registers depend on what follows them"
    );
    a
}

/// What the CPU that runs this answers, found without the crate.
fn native_machine(leaves: &[u32], subs: u32) -> Map<String, Value> {
    leaves
        .iter()
        .map(|&l| {
            let all: Vec<Value> = (0..subs).map(|s| native_row(l, s)).collect();
            (format!("L{l:X}"), Value::Array(all))
        })
        .collect()
}

fn native_row(leaf: u32, sub: u32) -> Value {
    #[cfg(target_arch = "x86")]
    use std::arch::x86::__cpuid_count;
    #[cfg(target_arch = "x86_64")]
    use std::arch::x86_64::__cpuid_count;
    let limb = |w: u32| [w & 0xffff, w >> 16];
    #[allow(unused_unsafe)]
    let r = unsafe { __cpuid_count(leaf, sub) };
    json!([limb(r.eax), limb(r.ebx), limb(r.ecx), limb(r.edx)].concat())
}

fn machine(v: &Value) -> Machine {
    let mut m = Machine::new();
    for (k, subs) in v.as_object().expect("machine") {
        let leaf = u32::from_str_radix(&k[1..], 16).expect("leaf");
        let subs = subs
            .as_array()
            .expect("sub-leaves")
            .iter()
            .map(|s| {
                let l: Vec<u32> = s
                    .as_array()
                    .expect("limbs")
                    .iter()
                    .map(|x| x.as_u64().expect("limb") as u32)
                    .collect();
                [
                    l[0] | l[1] << 16,
                    l[2] | l[3] << 16,
                    l[4] | l[5] << 16,
                    l[6] | l[7] << 16,
                ]
            })
            .collect();
        m.insert(leaf, subs);
    }
    m
}

struct Run {
    cpu: Arc<Cpu>,
    ids: HashMap<i64, Box<dyn Object>>,
    held: HashMap<i64, Box<dyn Held>>,
    events: Vec<Value>,
    sim: bool,
}

impl Run {
    /// Performs one call and records it; false if nothing sensible can follow.
    fn call(&mut self, op: &Value) -> bool {
        let int = |k: &str| op[k].as_i64().unwrap_or_else(|| panic!("tool error: {k}"));
        let txt = |k: &str| op[k].as_str().unwrap_or_else(|| panic!("tool error: {k}"));
        READS.with_borrow_mut(|r| r.clear());
        LEFT.set(BUDGET);
        let num = |v: &Value| v.as_u64().expect("tool error: flip");
        FLIP.set(
            op.get("flip")
                .map(|f| (num(&f[0]) as u32, num(&f[1]) as usize - 1)),
        );
        let name = txt("op");
        let present = |o: &Option<Box<dyn Held>>| vec![json!([if o.is_some() { 1 } else { 0 }])];
        let mut stop = false;
        let mut extra = None;
        if self.sim {
            fault::simulate(simulated);
        }
        let result: Result<Vec<Value>, _> = catch_unwind(AssertUnwindSafe(|| match name {
            "new" => {
                let rdr = Rdr(self.cpu.clone());
                let id: Box<dyn Object> = match op.get("via").and_then(|v| v.as_str()) {
                    None | Some("reader") => Box::new(CpuId::with_cpuid_reader(rdr)),
                    Some("closure") => Box::new(CpuId::with_cpuid_fn(move |a, c| rdr.cpuid2(a, c))),
                    Some("reader-closure") => {
                        Box::new(CpuId::with_cpuid_reader(move |a, c| rdr.cpuid2(a, c)))
                    }
                    Some("fn-reader") => Box::new(CpuId::with_cpuid_fn(rdr)),
                    Some("stored") => {
                        Box::new(CpuId::with_cpuid_fn(move |a, c| stored(rdr.cpuid2(a, c))))
                    }
                    Some("native") => Box::new(CpuId::new()),
                    Some("default") => Box::new(CpuId::default()),
                    Some("native-reader") => Box::new(CpuId::with_cpuid_reader(CpuIdReaderNative)),
                    Some(x) => panic!("tool error: no constructor {x}"),
                };
                self.ids.insert(int("h"), id);
                vec![json!([1])]
            }
            "clone" => {
                let id = self.ids[&int("h")].dup();
                self.ids.insert(int("h2"), id);
                vec![json!([1])]
            }
            "get" => {
                let o = self.ids[&int("h")].query(txt("g"));
                let r = present(&o);
                self.held.remove(&int("x"));
                o.map(|o| self.held.insert(int("x"), o));
                r
            }
            "read" => match self.held.get(&int("x")) {
                None => vec![],
                Some(v) => {
                    let all = v.read();
                    match op.get("fs").and_then(|f| f.as_array()) {
                        None => all.into_iter().map(|x| json!(x)).collect(),
                        Some(fs) => fs
                            .iter()
                            .map(|i| json!(all[i.as_u64().unwrap() as usize - 1]))
                            .collect(),
                    }
                }
            },
            "sub" => match self.held.get(&int("x")) {
                None => vec![],
                Some(v) => {
                    let o = v.sub(txt("q"));
                    let r = present(&o);
                    self.held.remove(&int("y"));
                    o.map(|o| self.held.insert(int("y"), o));
                    r
                }
            },
            "next" if op.get("y").is_some() => {
                let item = self.held.get_mut(&int("x")).and_then(|v| v.take());
                let r = item.as_ref().map_or(vec![], |i| i.read());
                self.held.remove(&int("y"));
                item.map(|i| self.held.insert(int("y"), i));
                r.into_iter().map(|x| json!(x)).collect()
            }
            "next" => match self.held.get_mut(&int("x")) {
                None => vec![],
                Some(v) => v
                    .next()
                    .unwrap_or_default()
                    .into_iter()
                    .map(|x| json!(x))
                    .collect(),
            },
            "skip" => match self.held.get_mut(&int("x")) {
                None => vec![],
                Some(v) => vec![json!(enc::num(v.skip(int("n") as usize) as u128))],
            },
            "citer" => match self.held.get(&int("x")) {
                None => vec![],
                Some(v) => {
                    let d = v.dup();
                    self.held.insert(int("y"), d);
                    vec![json!([1])]
                }
            },
            "peek" => match self.held.get(&int("x")) {
                None => vec![],
                Some(v) => {
                    let num = |k, or| op.get(k).and_then(|n| n.as_u64()).unwrap_or(or);
                    let n = num("n", 0) * num("by", 1);
                    v.peek(txt("how"), n as usize)
                        .into_iter()
                        .map(|x| json!(x))
                        .collect()
                }
            },
            "table" => CACHE_INFO_TABLE.iter().map(|e| json!([e.num])).collect(),
            "entry" => {
                let d = int("d");
                let o = held(CACHE_INFO_TABLE.iter().find(|e| e.num as i64 == d).copied());
                let r = present(&o);
                self.held.remove(&int("x"));
                o.map(|o| self.held.insert(int("x"), o));
                r
            }
            "conv" => vec![json!(fields::meaning(txt("of"), int("n")))],
            "numof" => vec![json!(enc::num(fields::number(txt("of"), int("n")) as u128))],
            "mig" => {
                self.cpu
                    .current
                    .store(int("i") as usize - 1, Ordering::Relaxed);
                vec![]
            }
            "dbg" => match self.held.get(&int("x")) {
                None => vec![],
                Some(v) => {
                    std::hint::black_box(v.debug());
                    vec![json!([1])]
                }
            },
            "dbgid" => {
                std::hint::black_box(self.ids[&int("h")].debug());
                vec![json!([1])]
            }
            "show" => match self.held.get(&int("x")) {
                None => vec![],
                Some(v) => match v.show() {
                    None => vec![],
                    Some((t, same)) => {
                        extra = Some(t);
                        vec![json!([same as i64])]
                    }
                },
            },
            "showid" => {
                let (t, same) = self.ids[&int("h")].show();
                extra = Some(t);
                vec![json!([same as i64])]
            }
            "text" => match self.held.get(&int("x")) {
                None => vec![],
                Some(v) => {
                    extra = Some(Value::Array(v.texts()));
                    vec![json!([1])]
                }
            },
            "eq" => match (self.held.get(&int("x")), self.held.get(&int("y"))) {
                (Some(a), Some(b)) => match a.same(&**b) {
                    None => vec![],
                    Some(e) => vec![json!([e as i64])],
                },
                _ => vec![],
            },
            "exec" => {
                let leaf = u32::from_str_radix(&txt("leaf")[1..], 16).expect("leaf");
                let sub = int("sub") as u32;
                let r = exec(&self.cpu, txt("how"), leaf, sub);
                let mut out = r.values();
                out.push(vec![r.all_zero() as i64]);
                out.into_iter().map(|x| json!(x)).collect()
            }
            _ => panic!("tool error: no such operation"),
        }));
        if self.sim {
            fault::real();
        }
        let r = result.unwrap_or_else(|p| {
            if let Some(s) = p.downcast_ref::<String>() {
                if s.starts_with("tool error") {
                    eprintln!("{s}");
                    std::process::exit(2);
                }
            }
            if let Some(s) = p.downcast_ref::<&str>() {
                if s.starts_with("tool error") {
                    eprintln!("{s}");
                    std::process::exit(2);
                }
            }
            stop = true;
            vec![json!(panic_code(p))]
        });
        let mut ev: Map<String, Value> = op.as_object().unwrap().clone();
        let reads: Vec<Value> =
            READS.with_borrow(|r| r.iter().map(|w| json!([w & 0xffff, w >> 16])).collect());
        ev.insert("r".into(), json!(r));
        if let Some(t) = extra {
            ev.insert("d".into(), t);
        }
        ev.insert("rd".into(), json!(reads));
        self.events.push(Value::Object(ev));
        !stop
    }

    fn last(&self) -> &Vec<Value> {
        self.events.last().unwrap()["r"].as_array().unwrap()
    }
}

/// Runs one case.  Besides the recorded operations there are two short hands:
/// `drain` calls next until the iterator ends (or `max` items were reported)
/// and an operation with `"if": x` is skipped if handle x holds nothing it
/// makes sense for.
fn run_case(case: &Value) -> Value {
    // A case about the CPU we run on: its only machine is recorded before and
    // after the calls, and they are repeated if it changed meanwhile.
    if let Some(n) = case.get("native") {
        let leaves: Vec<u32> = n["leaves"]
            .as_array()
            .unwrap()
            .iter()
            .map(|l| u32::from_str_radix(&l.as_str().unwrap()[1..], 16).expect("leaf"))
            .collect();
        let subs = n["subs"].as_u64().unwrap() as u32;
        for _ in 0..8 {
            let m = json!([native_machine(&leaves, subs)]);
            let mut c = case.clone();
            c.as_object_mut().unwrap().remove("native");
            c["m"] = m.clone();
            // Beyond the recorded sub-leaves the table repeats the last one:
            // execute there only what this CPU answers the same way.
            let far = |o: &Value| {
                o["op"] != "exec"
                    || o["sub"].as_u64().unwrap() < subs as u64
                    || m[0][o["leaf"].as_str().unwrap()][subs as usize - 1]
                        == native_row(
                            u32::from_str_radix(&o["leaf"].as_str().unwrap()[1..], 16).unwrap(),
                            o["sub"].as_u64().unwrap() as u32,
                        )
            };
            c["ops"].as_array_mut().unwrap().retain(far);
            let trace = run_case(&c);
            if m == json!([native_machine(&leaves, subs)]) {
                return trace;
            }
        }
        return json!({"id": case["id"], "m": [], "ev": []});
    }
    let machines: Vec<Machine> = case["m"].as_array().unwrap().iter().map(machine).collect();
    let mut run = Run {
        cpu: Arc::new(Cpu {
            machines,
            current: AtomicUsize::new(0),
        }),
        ids: HashMap::new(),
        held: HashMap::new(),
        events: vec![],
        sim: case.get("sim").is_some(),
    };
    SIMULATED.set(Some(run.cpu.clone()));
    run.all(case);
    let mut t = json!({"id": case["id"], "m": case["m"], "ev": run.events});
    if case.get("blind").is_some() {
        t["blind"] = json!(1);
    }
    t
}

impl Run {
    /// Performs the operations of the case.
    fn all(&mut self, case: &Value) {
        let run = self;
        for op in case["ops"].as_array().unwrap() {
            let mut op = op.clone();
            if let Some(x) = op.get("if").and_then(|x| x.as_i64()) {
                if !run.held.get(&x).is_some_and(|v| v.can(&op)) {
                    continue;
                }
                if op["op"] == "eq" && !run.held.contains_key(&op["y"].as_i64().unwrap()) {
                    continue;
                }
                op.as_object_mut().unwrap().remove("if");
            }
            if op["op"] == "drain" {
                let step = json!({"op": "next", "x": op["x"]});
                for _ in 0..op["max"].as_u64().unwrap_or(64) {
                    let go = run.call(&step);
                    if !go || run.last().is_empty() {
                        break;
                    }
                }
            } else if !run.call(&op) {
                if op["op"] == "new" {
                    break;
                }
            }
        }
    }
}

/// Concurrent use: each thread performs one of the cases, at the same time.
/// Cases of a group that are marked `share` are about the same CPU, and use the
/// same object, made by the main thread.
#[cfg(feature = "threads")]
mod threads {
    use super::*;
    use std::sync::Barrier;

    /// All that the crate hands out may go to another thread, and be seen by it.
    fn movable<T: Send + Sync>() {}
    pub fn types() {
        movable::<ApmInfo>();
        movable::<AssignableBandwidthMonitoringCounterInfo>();
        movable::<BandwidthMonitoringEventCounters>();
        movable::<CacheInfo>();
        movable::<CacheInfoIter>();
        movable::<CacheParameter>();
        movable::<CpuIdReaderNative>();
        movable::<CpuIdResult>();
        movable::<DatInfo>();
        movable::<DirectCacheAccessInfo>();
        movable::<EpcSection>();
        movable::<ExtendedCpuTopologyLevel>();
        movable::<ExtendedFeatures>();
        movable::<ExtendedPerformanceMonitoringDebug>();
        movable::<ExtendedProcessorFeatureIdentifiers>();
        movable::<ExtendedState>();
        movable::<ExtendedTopologyLevel>();
        movable::<FeatureInfo>();
        movable::<Hypervisor>();
        movable::<InstructionBasedSamplingCapabilities>();
        movable::<L1CacheTlbInfo>();
        movable::<L2And3CacheTlbInfo>();
        movable::<L2CatInfo>();
        movable::<L3CatInfo>();
        movable::<L3MonitoringInfo>();
        movable::<MemBwAllocationInfo>();
        movable::<MemoryEncryptionInfo>();
        movable::<MonitorMwaitInfo>();
        movable::<PerformanceMonitoringInfo>();
        movable::<PerformanceOptimizationInfo>();
        movable::<ProcessorBrandString>();
        movable::<ProcessorCapacityAndFeatureInfo>();
        movable::<ProcessorFrequencyInfo>();
        movable::<ProcessorSerial>();
        movable::<ProcessorTopologyInfo>();
        movable::<ProcessorTraceInfo>();
        movable::<SgxSectionInfo>();
        movable::<SoCVendorBrand>();
        movable::<SvmFeatures>();
        movable::<ThermalPowerInfo>();
        movable::<Tlb1gbPageInfo>();
        movable::<TscInfo>();
        movable::<VendorInfo>();
        movable::<CpuId<Rdr>>();
        movable::<CacheParametersIter<Rdr>>();
        movable::<DatIter<Rdr>>();
        movable::<ExtendedCpuTopologyIter<Rdr>>();
        movable::<ExtendedStateInfo<Rdr>>();
        movable::<ExtendedStateIter<Rdr>>();
        movable::<ExtendedTopologyIter<Rdr>>();
        movable::<HypervisorInfo<Rdr>>();
        movable::<PqosExtendedFeatureInfo<Rdr>>();
        movable::<RdtAllocationInfo<Rdr>>();
        movable::<RdtMonitoringInfo<Rdr>>();
        movable::<SgxInfo<Rdr>>();
        movable::<SgxSectionIter<Rdr>>();
        movable::<SoCVendorAttributesIter<Rdr>>();
        movable::<SoCVendorInfo<Rdr>>();
    }

    /// An object that other threads use, too.
    struct Shared(Arc<CpuId<Rdr>>);
    impl Object for Shared {
        fn query(&self, g: &str) -> Option<Box<dyn Held>> {
            get(&*self.0, g)
        }
        fn dup(&self) -> Box<dyn Object> {
            Box::new((*self.0).clone())
        }
        fn debug(&self) -> usize {
            self.0.debug()
        }
        fn show(&self) -> (Value, bool) {
            text::trees(&*self.0)
        }
    }

    /// What happened when the threads performed the cases so many times.  Once
    /// something happens that did not happen the first time, it is added.
    pub fn group(cases: &[Value], rounds: usize) -> Vec<Value> {
        let machines: Vec<Machine> = cases[0]["m"]
            .as_array()
            .unwrap()
            .iter()
            .map(machine)
            .collect();
        let cpu = Arc::new(Cpu {
            machines,
            current: AtomicUsize::new(0),
        });
        let all = Arc::new(CpuId::with_cpuid_reader(Rdr(cpu.clone())));
        let start = Barrier::new(cases.len());
        let (all, cpu, start) = (&all, &cpu, &start);
        let once = move |case: &Value| {
            if case.get("share").is_none() {
                return run_case(case)["ev"].take();
            }
            let mut run = Run {
                cpu: cpu.clone(),
                ids: HashMap::new(),
                held: HashMap::new(),
                events: vec![json!({"op": "new", "h": 1, "r": [[1]], "rd": []})],
                sim: false,
            };
            run.ids.insert(1, Box::new(Shared(all.clone())));
            run.all(case);
            json!(run.events)
        };
        std::thread::scope(|s| {
            let ts: Vec<_> = cases
                .iter()
                .map(|case| {
                    s.spawn(move || {
                        start.wait();
                        let first = once(case);
                        let mut more = vec![];
                        for _ in 1..rounds {
                            start.wait();
                            let again = once(case);
                            if more.is_empty() && again != first {
                                more = again.as_array().unwrap().clone();
                            }
                        }
                        let mut ev = first.as_array().unwrap().clone();
                        if !more.is_empty() {
                            ev.push(json!({"op": "mig", "i": 1, "r": [], "rd": []}));
                            ev.append(&mut more);
                        }
                        json!({"id": case["id"], "m": case["m"], "ev": ev})
                    })
                })
                .collect();
            ts.into_iter()
                .map(|t| t.join().expect("tool error: thread"))
                .collect()
        })
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("meta") => {
            let m: Map<String, Value> = fields::meta()
                .into_iter()
                .map(|(t, n)| (t.to_string(), json!(n)))
                .collect();
            println!("{}", Value::Object(m));
        }
        // Can CPUID instructions be simulated here?
        Some("sim") => {
            println!("{}", fault::simulate(simulated));
            fault::real();
        }
        Some("run") => {
            std::panic::set_hook(Box::new(|_| {}));
            let inp = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("cases"));
            let mut out = BufWriter::new(std::fs::File::create(&args[3]).expect("traces"));
            for line in inp.lines() {
                let line = line.expect("line");
                if line.trim().is_empty() {
                    continue;
                }
                let case: Value = serde_json::from_str(&line).expect("json");
                writeln!(out, "{}", run_case(&case)).expect("write");
                // The runner counts the lines if a case never ends or kills us.
                out.flush().expect("flush");
            }
        }
        #[cfg(feature = "threads")]
        Some("threads") => {
            std::panic::set_hook(Box::new(|_| {}));
            let n: usize = args[4].parse().expect("threads");
            let rounds: usize = args[5].parse().expect("rounds");
            threads::types();
            let cases: Vec<Value> =
                std::io::BufReader::new(std::fs::File::open(&args[2]).expect("cases"))
                    .lines()
                    .map(|l| serde_json::from_str(&l.expect("line")).expect("json"))
                    .collect();
            let mut out = BufWriter::new(std::fs::File::create(&args[3]).expect("traces"));
            for g in cases.chunks(n) {
                for t in threads::group(g, rounds) {
                    writeln!(out, "{t}").expect("write");
                }
                out.flush().expect("flush");
            }
        }
        _ => {
            eprintln!("usage: cpuid-conformance run CASES TRACES | meta");
            std::process::exit(2);
        }
    }
}
