//! MPI datatypes as type maps: only the bytes a type describes are transported.
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

pub type Handle = *mut c_void;

#[derive(Debug, Clone)]
pub struct Type {
    /// (offset, length) of each described run of bytes
    pub map: Vec<(isize, usize)>,
    pub size: usize,
    pub lb: isize,
    pub ub: isize,
    pub align: usize,
    pub committed: bool,
}

impl Type {
    pub fn basic(size: usize) -> Type {
        Type { map: vec![(0, size)], size, lb: 0, ub: size as isize, align: size, committed: true }
    }
    pub fn extent(&self) -> isize {
        self.ub - self.lb
    }
    /// The type made of copies of other types at given displacements.
    pub fn compose(parts: &[(isize, &Type)]) -> Type {
        let mut map: Vec<(isize, usize)> = vec![];
        let (mut lb, mut ub, mut align) = (isize::MAX, isize::MIN, 1);
        for (d, t) in parts {
            for (o, l) in &t.map {
                match map.last_mut() {
                    Some((po, pl)) if *po + *pl as isize == d + o => *pl += l,
                    _ => map.push((d + o, *l)),
                }
            }
            lb = lb.min(d + t.lb);
            ub = ub.max(d + t.ub);
            align = align.max(t.align);
        }
        if parts.is_empty() {
            (lb, ub) = (0, 0);
        }
        // Open MPI pads the extent to the alignment of the basic types.
        let rest = (ub - lb).rem_euclid(align as isize);
        if rest != 0 {
            ub += align as isize - rest;
        }
        let size = map.iter().map(|x| x.1).sum();
        Type { map, size, lb, ub, align, committed: false }
    }
    pub fn pack(&self, buf: *const u8, count: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(self.size * count);
        for i in 0..count {
            for (o, l) in &self.map {
                unsafe {
                    let p = buf.offset(i as isize * self.extent() + o);
                    for k in 0..*l {
                        out.push(std::ptr::read_volatile(p.add(k)));
                    }
                }
            }
        }
        out
    }
    pub fn unpack(&self, buf: *mut u8, count: usize, data: &[u8]) {
        let mut at = 0;
        for i in 0..count {
            for (o, l) in &self.map {
                if at >= data.len() {
                    return;
                }
                let n = (*l).min(data.len() - at);
                unsafe {
                    let p = buf.offset(i as isize * self.extent() + o);
                    std::ptr::copy_nonoverlapping(data.as_ptr().add(at), p, n);
                }
                at += n;
            }
        }
    }
    /// The span of memory that `count` elements at `buf` touch.
    pub fn span(&self, count: usize) -> usize {
        if count == 0 || self.size == 0 {
            return 0;
        }
        let last = self.map.iter().map(|(o, l)| o + *l as isize).max().unwrap_or(0);
        ((count - 1) as isize * self.extent() + last) as usize
    }
}

// One shard per thread (more or less), so that threads that explore do not wait for each other.
const SHARDS: usize = 64;
const TAG: usize = 0x5000_0000_0000_0000;

fn shards() -> &'static [Mutex<HashMap<usize, Arc<Type>>>; SHARDS] {
    static T: OnceLock<[Mutex<HashMap<usize, Arc<Type>>>; SHARDS]> = OnceLock::new();
    T.get_or_init(|| std::array::from_fn(|_| Mutex::new(HashMap::new())))
}

fn shard(h: usize) -> &'static Mutex<HashMap<usize, Arc<Type>>> {
    &shards()[(h >> 4) % SHARDS]
}

thread_local! {
    static MINE: usize = {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        NEXT.fetch_add(1, Ordering::Relaxed) % SHARDS
    };
}

pub fn insert(t: Type) -> Handle {
    static NEXT: [AtomicUsize; SHARDS] = [const { AtomicUsize::new(1) }; SHARDS];
    let mine = MINE.with(|m| *m);
    let n = NEXT[mine].fetch_add(1, Ordering::Relaxed);
    let h = TAG | ((n * SHARDS + mine) << 4);
    shard(h).lock().unwrap().insert(h, Arc::new(t));
    h as Handle
}

pub fn remove(h: Handle) {
    shard(h as usize).lock().unwrap().remove(&(h as usize));
}

pub fn commit(h: Handle) {
    if let Some(t) = shard(h as usize).lock().unwrap().get_mut(&(h as usize)) {
        Arc::make_mut(t).committed = true;
    }
}

extern "C" {
    static RSMPI_C_BOOL: Handle;
    static RSMPI_FLOAT: Handle;
    static RSMPI_DOUBLE: Handle;
    static RSMPI_INT8_T: Handle;
    static RSMPI_INT16_T: Handle;
    static RSMPI_INT32_T: Handle;
    static RSMPI_INT64_T: Handle;
    static RSMPI_UINT8_T: Handle;
    static RSMPI_UINT16_T: Handle;
    static RSMPI_UINT32_T: Handle;
    static RSMPI_UINT64_T: Handle;
    static RSMPI_FLOAT_COMPLEX: Handle;
    static RSMPI_DOUBLE_COMPLEX: Handle;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Basic {
    Bool,
    F32,
    F64,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    C32,
    C64,
}

pub fn basic(h: Handle) -> Option<Basic> {
    use Basic::*;
    let list = unsafe {
        [
            (RSMPI_C_BOOL, Bool),
            (RSMPI_FLOAT, F32),
            (RSMPI_DOUBLE, F64),
            (RSMPI_INT8_T, I8),
            (RSMPI_INT16_T, I16),
            (RSMPI_INT32_T, I32),
            (RSMPI_INT64_T, I64),
            (RSMPI_UINT8_T, U8),
            (RSMPI_UINT16_T, U16),
            (RSMPI_UINT32_T, U32),
            (RSMPI_UINT64_T, U64),
            (RSMPI_FLOAT_COMPLEX, C32),
            (RSMPI_DOUBLE_COMPLEX, C64),
        ]
    };
    list.iter().find(|x| x.0 == h).map(|x| x.1)
}

fn basics() -> &'static HashMap<usize, Arc<Type>> {
    static B: OnceLock<HashMap<usize, Arc<Type>>> = OnceLock::new();
    B.get_or_init(|| unsafe {
        [
            (RSMPI_C_BOOL, 1),
            (RSMPI_FLOAT, 4),
            (RSMPI_DOUBLE, 8),
            (RSMPI_INT8_T, 1),
            (RSMPI_INT16_T, 2),
            (RSMPI_INT32_T, 4),
            (RSMPI_INT64_T, 8),
            (RSMPI_UINT8_T, 1),
            (RSMPI_UINT16_T, 2),
            (RSMPI_UINT32_T, 4),
            (RSMPI_UINT64_T, 8),
            (RSMPI_FLOAT_COMPLEX, 8),
            (RSMPI_DOUBLE_COMPLEX, 16),
        ]
        .into_iter()
        .map(|(h, s)| (h as usize, Arc::new(Type::basic(s))))
        .collect()
    })
}

pub fn get(h: Handle) -> Arc<Type> {
    if let Some(t) = basics().get(&(h as usize)) {
        return t.clone();
    }
    let t = shard(h as usize).lock().unwrap().get(&(h as usize)).cloned();
    match t {
        Some(t) => t,
        None => {
            crate::world::fail(format!("MPI call with an unknown or freed datatype {h:?}"));
            Arc::new(Type::basic(0))
        }
    }
}

pub fn live() -> usize {
    shards().iter().map(|s| s.lock().unwrap().len()).sum()
}
