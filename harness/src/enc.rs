//! Encoding of observed values as sequences of integers, as in spec/Decode.tla.
use raw_cpuid::*;

pub trait Enc {
    fn enc(&self) -> Vec<i64>;
}

/// A number: 16-bit limbs, little endian, no trailing zero limbs, at least one.
pub fn num(mut v: u128) -> Vec<i64> {
    let mut out = vec![(v & 0xffff) as i64];
    v >>= 16;
    while v != 0 {
        out.push((v & 0xffff) as i64);
        v >>= 16;
    }
    out
}

impl Enc for bool {
    fn enc(&self) -> Vec<i64> {
        vec![*self as i64]
    }
}
macro_rules! enc_num { ($($t:ty),*) => { $(impl Enc for $t { fn enc(&self) -> Vec<i64> { num(*self as u128) } })* } }
enc_num!(u8, u16, u32, u64, u128, usize);

impl<T: Enc> Enc for Option<T> {
    fn enc(&self) -> Vec<i64> {
        self.as_ref().map_or(vec![], |v| v.enc())
    }
}
impl Enc for &str {
    fn enc(&self) -> Vec<i64> {
        let mut out = vec![self.len() as i64];
        out.extend(self.bytes().map(|b| b as i64));
        out
    }
}
fn word(w: u32) -> [i64; 2] {
    [(w & 0xffff) as i64, (w >> 16) as i64]
}
impl Enc for Associativity {
    fn enc(&self) -> Vec<i64> {
        match self {
            Associativity::Disabled => vec![0],
            Associativity::DirectMapped => vec![1],
            Associativity::NWay(n) => vec![2, *n as i64],
            Associativity::FullyAssociative => vec![3],
            Associativity::Unknown => vec![4],
        }
    }
}
impl Enc for CacheInfoType {
    fn enc(&self) -> Vec<i64> {
        vec![match self {
            CacheInfoType::General => 0,
            CacheInfoType::Cache => 1,
            CacheInfoType::TLB => 2,
            CacheInfoType::STLB => 3,
            CacheInfoType::DTLB => 4,
            CacheInfoType::Prefetch => 5,
        }]
    }
}
impl Enc for CacheType {
    fn enc(&self) -> Vec<i64> {
        vec![match self {
            CacheType::Null => 0,
            CacheType::Data => 1,
            CacheType::Instruction => 2,
            CacheType::Unified => 3,
            CacheType::Reserved => 4,
        }]
    }
}
impl Enc for TopologyType {
    fn enc(&self) -> Vec<i64> {
        vec![match self {
            TopologyType::Invalid => 0,
            TopologyType::SMT => 1,
            TopologyType::Core => 2,
            TopologyType::Module => 3,
            TopologyType::Tile => 4,
            TopologyType::Die => 5,
            _ => 6,
        }]
    }
}
impl Enc for HierarchyLevelType {
    fn enc(&self) -> Vec<i64> {
        match self {
            HierarchyLevelType::Reserved => vec![0],
            HierarchyLevelType::Core => vec![1],
            HierarchyLevelType::Complex => vec![2],
            HierarchyLevelType::Die => vec![3],
            HierarchyLevelType::Socket => vec![4],
            HierarchyLevelType::Unknown(x) => vec![5, *x as i64],
        }
    }
}
impl Enc for ExtendedRegisterType {
    fn enc(&self) -> Vec<i64> {
        match self {
            ExtendedRegisterType::Avx => vec![0],
            ExtendedRegisterType::MpxBndregs => vec![1],
            ExtendedRegisterType::MpxBndcsr => vec![2],
            ExtendedRegisterType::Avx512Opmask => vec![3],
            ExtendedRegisterType::Avx512ZmmHi256 => vec![4],
            ExtendedRegisterType::Avx512ZmmHi16 => vec![5],
            ExtendedRegisterType::Pt => vec![6],
            ExtendedRegisterType::Pkru => vec![7],
            ExtendedRegisterType::Hdc => vec![8],
            ExtendedRegisterType::Unknown(n) => {
                let mut v = vec![9];
                v.extend(num(*n as u128));
                v
            }
        }
    }
}
impl Enc for ExtendedRegisterStateLocation {
    fn enc(&self) -> Vec<i64> {
        vec![match self {
            ExtendedRegisterStateLocation::Xcr0 => 0,
            ExtendedRegisterStateLocation::Ia32Xss => 1,
        }]
    }
}
impl Enc for DatType {
    fn enc(&self) -> Vec<i64> {
        vec![match self {
            DatType::Null => 0,
            DatType::DataTLB => 1,
            DatType::InstructionTLB => 2,
            DatType::UnifiedTLB => 3,
            DatType::LoadOnly => 4,
            DatType::StoreOnly => 5,
            _ => 6,
        }]
    }
}
impl Enc for Hypervisor {
    fn enc(&self) -> Vec<i64> {
        match self {
            Hypervisor::Xen => vec![0],
            Hypervisor::VMware => vec![1],
            Hypervisor::HyperV => vec![2],
            Hypervisor::KVM => vec![3],
            Hypervisor::QEMU => vec![4],
            Hypervisor::Bhyve => vec![5],
            Hypervisor::QNX => vec![6],
            Hypervisor::ACRN => vec![7],
            Hypervisor::Unknown(b, c, d) => {
                let mut v = vec![8];
                for w in [b, c, d] {
                    v.extend(word(*w));
                }
                v
            }
        }
    }
}
