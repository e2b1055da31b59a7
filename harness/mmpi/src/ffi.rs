//! The MPI C functions, on the model.
#![allow(non_snake_case, clippy::missing_safety_doc)]
use std::ffi::c_void;
use std::os::raw::{c_char, c_double, c_int};
use std::sync::Arc;

use crate::types::{self, Basic, Handle, Type};
use crate::world::{hash, note, world, Coll, Mode, Msg, PostedRecv, Req, ReqKind, Stat, Status, World};

type Aint = isize;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CStatus {
    source: c_int,
    tag: c_int,
    error: c_int,
    cancelled: c_int,
    ucount: usize,
}

extern "C" {
    static RSMPI_COMM_WORLD: Handle;
    static RSMPI_COMM_SELF: Handle;
    static RSMPI_COMM_NULL: Handle;
    static RSMPI_REQUEST_NULL: Handle;
    static RSMPI_MESSAGE_NULL: Handle;
    static RSMPI_DATATYPE_NULL: Handle;
    static RSMPI_ANY_SOURCE: c_int;
    static RSMPI_ANY_TAG: c_int;
    static RSMPI_PROC_NULL: c_int;
    static RSMPI_UNDEFINED: c_int;
    static RSMPI_MAX: Handle;
    static RSMPI_MIN: Handle;
    static RSMPI_SUM: Handle;
    static RSMPI_PROD: Handle;
    static RSMPI_LAND: Handle;
    static RSMPI_LOR: Handle;
    static RSMPI_LXOR: Handle;
    static RSMPI_BAND: Handle;
    static RSMPI_BOR: Handle;
    static RSMPI_BXOR: Handle;
}

pub unsafe fn any_source() -> i32 {
    RSMPI_ANY_SOURCE
}
pub unsafe fn any_tag() -> i32 {
    RSMPI_ANY_TAG
}

const REQ: usize = 0x6000_0000_0000_0000;
const MESSAGE: usize = 0x7000_0000_0000_0000;

fn w() -> &'static mut World {
    match world() {
        Some(w) => w,
        None => {
            eprintln!("MPI communication outside of a simulated job");
            std::process::exit(3)
        }
    }
}

/// Ends this execution with a violation (a panic must not leave an `extern "C"` function).
fn halt(what: String) -> ! {
    crate::world::fail(what);
    w().ranks[crate::world::rank()].poisoned = false;
    loop {
        w().suspend(Status::Ready);
    }
}

fn comm_id(c: Handle) -> usize {
    unsafe {
        if c == RSMPI_COMM_WORLD {
            0
        } else if c == RSMPI_COMM_SELF {
            1
        } else {
            eprintln!("unknown communicator {c:?}");
            std::process::exit(3)
        }
    }
}

fn put_status(s: *mut CStatus, st: Stat) {
    if !s.is_null() {
        unsafe {
            *s = CStatus { source: st.source, tag: st.tag, error: 0, cancelled: 0, ucount: st.bytes }
        }
    }
}

// ---------------------------------------------------------------- environment

static INIT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[no_mangle]
pub unsafe extern "C" fn MPI_Init_thread(_: *mut c_int, _: *mut c_void, required: c_int, provided: *mut c_int) -> c_int {
    INIT.store(true, std::sync::atomic::Ordering::SeqCst);
    *provided = required;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Init(_: *mut c_int, _: *mut c_void) -> c_int {
    INIT.store(true, std::sync::atomic::Ordering::SeqCst);
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Initialized(flag: *mut c_int) -> c_int {
    *flag = INIT.load(std::sync::atomic::Ordering::SeqCst) as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Finalized(flag: *mut c_int) -> c_int {
    *flag = 0;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Finalize() -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Query_thread(p: *mut c_int) -> c_int {
    *p = 3;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Buffer_attach(_: *mut c_void, _: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Buffer_detach(_: *mut c_void, size: *mut c_int) -> c_int {
    if !size.is_null() {
        *size = 0;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Abort(_: Handle, code: c_int) -> c_int {
    if world().is_some() {
        halt(format!("MPI_Abort({code}) was called"));
    }
    std::process::exit(3)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Wtime() -> c_double {
    match world() {
        Some(w) => {
            w.clock += 1;
            w.clock as f64 * 1e-6
        }
        None => 0.0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Wtick() -> c_double {
    1e-6
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_rank(c: Handle, rank: *mut c_int) -> c_int {
    *rank = if comm_id(c) == 0 { crate::world::rank() as c_int } else { 0 };
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_size(c: Handle, size: *mut c_int) -> c_int {
    *size = if comm_id(c) == 0 { crate::world::size() as c_int } else { 1 };
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_test_inter(_: Handle, flag: *mut c_int) -> c_int {
    *flag = 0;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_get_parent(c: *mut Handle) -> c_int {
    *c = RSMPI_COMM_NULL;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_free(c: *mut Handle) -> c_int {
    *c = RSMPI_COMM_NULL;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_compare(a: Handle, b: Handle, r: *mut c_int) -> c_int {
    *r = if a == b { 0 } else { 3 };
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_processor_name(name: *mut c_char, len: *mut c_int) -> c_int {
    *name = b'm' as c_char;
    *name.add(1) = 0;
    *len = 1;
    0
}

// ---------------------------------------------------------------- datatypes

#[no_mangle]
pub unsafe extern "C" fn MPI_Type_contiguous(count: c_int, old: Handle, new: *mut Handle) -> c_int {
    let t = types::get(old);
    let parts: Vec<_> = (0..count as isize).map(|i| (i * t.extent(), &*t)).collect();
    *new = types::insert(Type::compose(&parts));
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_vector(count: c_int, len: c_int, stride: c_int, old: Handle, new: *mut Handle) -> c_int {
    let t = types::get(old);
    MPI_Type_create_hvector(count, len, stride as isize * t.extent(), old, new)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_hvector(count: c_int, len: c_int, stride: Aint, old: Handle, new: *mut Handle) -> c_int {
    let t = types::get(old);
    let mut parts = vec![];
    for i in 0..count as isize {
        for j in 0..len as isize {
            parts.push((i * stride + j * t.extent(), &*t));
        }
    }
    *new = types::insert(Type::compose(&parts));
    0
}
unsafe fn hindexed(count: c_int, lens: impl Fn(usize) -> c_int, displs: impl Fn(usize) -> isize, old: Handle, new: *mut Handle) -> c_int {
    let t = types::get(old);
    let mut parts = vec![];
    for i in 0..count as usize {
        for j in 0..lens(i) as isize {
            parts.push((displs(i) + j * t.extent(), &*t));
        }
    }
    *new = types::insert(Type::compose(&parts));
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_indexed(count: c_int, lens: *const c_int, displs: *const c_int, old: Handle, new: *mut Handle) -> c_int {
    let e = types::get(old).extent();
    hindexed(count, |i| *lens.add(i), |i| *displs.add(i) as isize * e, old, new)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_hindexed(count: c_int, lens: *const c_int, displs: *const Aint, old: Handle, new: *mut Handle) -> c_int {
    hindexed(count, |i| *lens.add(i), |i| *displs.add(i), old, new)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_indexed_block(count: c_int, len: c_int, displs: *const c_int, old: Handle, new: *mut Handle) -> c_int {
    let e = types::get(old).extent();
    hindexed(count, |_| len, |i| *displs.add(i) as isize * e, old, new)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_hindexed_block(count: c_int, len: c_int, displs: *const Aint, old: Handle, new: *mut Handle) -> c_int {
    hindexed(count, |_| len, |i| *displs.add(i), old, new)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_struct(count: c_int, lens: *const c_int, displs: *const Aint, olds: *const Handle, new: *mut Handle) -> c_int {
    let ts: Vec<Arc<Type>> = (0..count as usize).map(|i| types::get(*olds.add(i))).collect();
    let mut parts = vec![];
    for i in 0..count as usize {
        for j in 0..*lens.add(i) as isize {
            parts.push((*displs.add(i) + j * ts[i].extent(), &*ts[i]));
        }
    }
    *new = types::insert(Type::compose(&parts));
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_resized(old: Handle, lb: Aint, extent: Aint, new: *mut Handle) -> c_int {
    let mut t = (*types::get(old)).clone();
    t.lb = lb;
    t.ub = lb + extent;
    *new = types::insert(t);
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_dup(old: Handle, new: *mut Handle) -> c_int {
    *new = types::insert((*types::get(old)).clone());
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_commit(t: *mut Handle) -> c_int {
    types::commit(*t);
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_free(t: *mut Handle) -> c_int {
    types::remove(*t);
    *t = RSMPI_DATATYPE_NULL;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_get_extent(t: Handle, lb: *mut Aint, extent: *mut Aint) -> c_int {
    let t = types::get(t);
    *lb = t.lb;
    *extent = t.extent();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_size(t: Handle, size: *mut c_int) -> c_int {
    *size = types::get(t).size as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Pack_size(count: c_int, t: Handle, _: Handle, size: *mut c_int) -> c_int {
    *size = (types::get(t).size * count as usize) as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Pack(buf: *const c_void, count: c_int, t: Handle, out: *mut c_void, outsize: c_int, pos: *mut c_int, _: Handle) -> c_int {
    let d = types::get(t).pack(buf as *const u8, count as usize);
    if *pos as usize + d.len() > outsize as usize {
        halt("MPI_Pack into a buffer that is too small".into());
    }
    std::ptr::copy_nonoverlapping(d.as_ptr(), (out as *mut u8).add(*pos as usize), d.len());
    *pos += d.len() as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Unpack(inp: *const c_void, insize: c_int, pos: *mut c_int, out: *mut c_void, count: c_int, t: Handle, _: Handle) -> c_int {
    let t = types::get(t);
    let n = t.size * count as usize;
    if *pos as usize + n > insize as usize {
        halt("MPI_Unpack of too little data".into());
    }
    let d = std::slice::from_raw_parts((inp as *const u8).add(*pos as usize), n);
    t.unpack(out as *mut u8, count as usize, d);
    *pos += n as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_count(s: *const CStatus, t: Handle, count: *mut c_int) -> c_int {
    let t = types::get(t);
    let b = (*s).ucount;
    *count = if t.size == 0 {
        0
    } else if b % t.size != 0 {
        RSMPI_UNDEFINED
    } else {
        (b / t.size) as c_int
    };
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_address(p: *const c_void, a: *mut Aint) -> c_int {
    *a = p as Aint;
    0
}

// ---------------------------------------------------------------- sends

unsafe fn post(buf: *const c_void, count: c_int, t: Handle, dest: c_int, tag: c_int, comm: Handle, sync: bool, buffered: bool) -> (u64, bool) {
    let w = w();
    let ty = types::get(t);
    if dest < 0 || dest as usize >= w.n {
        halt(format!("sends to rank {dest} of {}", w.n));
    }
    if tag < 0 {
        w.fail(format!("rank {} sends with the invalid tag {tag}", w.cur));
    }
    let count = count as usize;
    let data = ty.pack(buf as *const u8, count);
    let id = w.next_msg;
    w.next_msg += 1;
    // The stated assumption about MPI libraries: a message without data is always sent eagerly.
    let late = sync || (!buffered && w.mode == Mode::Rendezvous && !data.is_empty());
    let me = w.cur;
    note(|| format!("send {} bytes to {dest} tag {tag} (message {id})", data.len()));
    let h = hash(&data);
    let m = Msg {
        id,
        src: me,
        tag,
        comm: comm_id(comm),
        bytes: data.len(),
        count,
        buf: buf as *const u8,
        at_post: data,
        late,
        ty,
        req: None,
        blocked_sender: None,
    };
    let n = w.n;
    w.queues[me * n + dest as usize].push_back(m);
    w.progress();
    w.returned(h ^ ((dest as u64) << 40) ^ ((tag as u64) << 20) ^ 0x51);
    (id, late)
}

unsafe fn blocking(buf: *const c_void, count: c_int, t: Handle, dest: c_int, tag: c_int, comm: Handle, sync: bool, buffered: bool) -> c_int {
    if w().poisoned() || dest == RSMPI_PROC_NULL {
        return 0;
    }
    let (id, late) = post(buf, count, t, dest, tag, comm, sync, buffered);
    if late {
        let w = w();
        w.suspend(Status::Sent { msg: id });
        w.returned(0x52);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Send(b: *const c_void, c: c_int, t: Handle, d: c_int, tag: c_int, comm: Handle) -> c_int {
    blocking(b, c, t, d, tag, comm, false, false)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Rsend(b: *const c_void, c: c_int, t: Handle, d: c_int, tag: c_int, comm: Handle) -> c_int {
    blocking(b, c, t, d, tag, comm, false, false)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Ssend(b: *const c_void, c: c_int, t: Handle, d: c_int, tag: c_int, comm: Handle) -> c_int {
    blocking(b, c, t, d, tag, comm, true, false)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Bsend(b: *const c_void, c: c_int, t: Handle, d: c_int, tag: c_int, comm: Handle) -> c_int {
    blocking(b, c, t, d, tag, comm, false, true)
}

unsafe fn immediate(buf: *const c_void, count: c_int, t: Handle, dest: c_int, tag: c_int, comm: Handle, req: *mut Handle, sync: bool) -> c_int {
    if w().poisoned() {
        *req = RSMPI_REQUEST_NULL;
        return 0;
    }
    let (id, late) = post(buf, count, t, dest, tag, comm, sync, false);
    let w = w();
    let r = w.reqs.len();
    let span = types::get(t).span(count as usize);
    if w.track_buffers && !crate::alloc::pin(buf as usize, span, id) {
        eprintln!("too many pending sends for the buffer tracker");
    }
    let (me, n) = (w.cur, w.n);
    w.reqs.push(Req {
        rank: me,
        done: !late,
        freed: false,
        stat: Stat::default(),
        kind: ReqKind::Send { msg: id, buf: buf as usize, sum: 0, span_ty: span },
        recv: None,
    });
    if late {
        w.queues[me * n + dest as usize].back_mut().unwrap().req = Some(r);
    }
    *req = (REQ | ((r + 1) << 4)) as Handle;
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Isend(b: *const c_void, c: c_int, t: Handle, d: c_int, tag: c_int, comm: Handle, r: *mut Handle) -> c_int {
    immediate(b, c, t, d, tag, comm, r, false)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Irsend(b: *const c_void, c: c_int, t: Handle, d: c_int, tag: c_int, comm: Handle, r: *mut Handle) -> c_int {
    immediate(b, c, t, d, tag, comm, r, false)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Ibsend(b: *const c_void, c: c_int, t: Handle, d: c_int, tag: c_int, comm: Handle, r: *mut Handle) -> c_int {
    immediate(b, c, t, d, tag, comm, r, false)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Issend(b: *const c_void, c: c_int, t: Handle, d: c_int, tag: c_int, comm: Handle, r: *mut Handle) -> c_int {
    immediate(b, c, t, d, tag, comm, r, true)
}

// ---------------------------------------------------------------- receives

/// Takes a message out of its queue and returns its data.
fn receive(w: &mut World, m: Msg, buf: *mut u8, count: usize, ty: &Type) -> Stat {
    let data = w.data(&m);
    if data.len() > count * ty.size {
        w.fail(format!("a message of {} bytes was received into {} bytes (truncated)", data.len(), count * ty.size));
    } else if ty.size > 0 && data.len() % ty.size != 0 {
        w.fail(format!("a message of {} bytes was received as elements of {} bytes", data.len(), ty.size));
    } else {
        ty.unpack(buf, count, &data);
    }
    let me = w.cur;
    note(|| format!("receive {} bytes from {} tag {} (message {})", data.len(), m.src, m.tag, m.id));
    let _ = me;
    w.complete_send(&m);
    w.progress();
    w.returned(hash(&data) ^ ((m.src as u64) << 40) ^ ((m.tag as u64) << 20) ^ 0x53);
    Stat { source: m.src as i32, tag: m.tag, bytes: data.len() }
}

/// Waits for a message and takes it.
fn take_blocking(src: c_int, tag: c_int, comm: usize) -> Option<Msg> {
    let w = w();
    if w.poisoned() {
        return None;
    }
    w.suspend(Status::Message { src, tag, comm });
    let w = self::w();
    let found = w.find(w.cur, src, tag, comm);
    let i = w.chooser.choose(found.len());
    let (s, at) = found[i];
    let (n, me) = (w.n, w.cur);
    w.queues[s * n + me].remove(at)
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Recv(buf: *mut c_void, count: c_int, t: Handle, src: c_int, tag: c_int, comm: Handle, st: *mut CStatus) -> c_int {
    if let Some(m) = take_blocking(src, tag, comm_id(comm)) {
        let s = receive(w(), m, buf as *mut u8, count as usize, &types::get(t));
        put_status(st, s);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Mprobe(src: c_int, tag: c_int, comm: Handle, msg: *mut Handle, st: *mut CStatus) -> c_int {
    match take_blocking(src, tag, comm_id(comm)) {
        Some(m) => keep_matched(m, msg, st),
        None => {
            *msg = RSMPI_MESSAGE_NULL;
            put_status(st, Stat::default())
        }
    }
    0
}

unsafe fn keep_matched(m: Msg, msg: *mut Handle, st: *mut CStatus) {
    let w = w();
    put_status(st, Stat { source: m.src as i32, tag: m.tag, bytes: m.bytes });
    let i = w.matched.len();
    let me = w.cur;
    w.returned(mix_msg(&m));
    w.progress();
    w.matched.push(Some((me, m)));
    *msg = (MESSAGE | ((i + 1) << 4)) as Handle;
}

fn mix_msg(m: &Msg) -> u64 {
    ((m.src as u64) << 40) ^ ((m.tag as u64) << 20) ^ m.bytes as u64 ^ 0x54
}

/// The poll: may other ranks run first, is there a message, and is it visible yet?
fn poll(src: c_int, tag: c_int, comm: usize) -> Option<(usize, usize)> {
    let w = w();
    w.suspend(Status::Poll);
    let w = self::w();
    w.steps_since_progress += 1;
    let found = w.find(w.cur, src, tag, comm);
    let me = w.cur;
    if !found.is_empty() {
        let i = w.chooser.choose(found.len() + 1);
        if i < found.len() {
            w.ranks[me].idle_polls = 0;
            w.progress();
            return Some(found[i]);
        }
        note(|| format!("poll {src}: a message is in flight, not visible yet"));
        w.progress();
    }
    w.ranks[me].idle_polls += 1;
    w.returned(0x55);
    None
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Improbe(src: c_int, tag: c_int, comm: Handle, flag: *mut c_int, msg: *mut Handle, st: *mut CStatus) -> c_int {
    if w().poisoned() {
        *flag = 0;
        return 0;
    }
    match poll(src, tag, comm_id(comm)) {
        Some((s, at)) => {
            let w = w();
            let (n, me) = (w.n, w.cur);
            let m = w.queues[s * n + me].remove(at).unwrap();
            *flag = 1;
            keep_matched(m, msg, st);
        }
        None => {
            *flag = 0;
            *msg = RSMPI_MESSAGE_NULL;
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Iprobe(src: c_int, tag: c_int, comm: Handle, flag: *mut c_int, st: *mut CStatus) -> c_int {
    if w().poisoned() {
        *flag = 0;
        return 0;
    }
    match poll(src, tag, comm_id(comm)) {
        Some((s, at)) => {
            let w = w();
            let m = &w.queues[s * w.n + w.cur][at];
            put_status(st, Stat { source: m.src as i32, tag: m.tag, bytes: m.bytes });
            let h = mix_msg(m);
            w.returned(h);
            *flag = 1;
        }
        None => *flag = 0,
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Probe(src: c_int, tag: c_int, comm: Handle, st: *mut CStatus) -> c_int {
    let w = w();
    if w.poisoned() {
        return 0;
    }
    let c = comm_id(comm);
    w.suspend(Status::Message { src, tag, comm: c });
    let w = self::w();
    let found = w.find(w.cur, src, tag, c);
    let i = w.chooser.choose(found.len());
    let (s, at) = found[i];
    let m = &w.queues[s * w.n + w.cur][at];
    put_status(st, Stat { source: m.src as i32, tag: m.tag, bytes: m.bytes });
    let h = mix_msg(m);
    w.returned(h);
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Mrecv(buf: *mut c_void, count: c_int, t: Handle, msg: *mut Handle, st: *mut CStatus) -> c_int {
    let w = w();
    if w.poisoned() {
        *msg = RSMPI_MESSAGE_NULL;
        return 0;
    }
    let i = ((*msg as usize ^ MESSAGE) >> 4) - 1;
    let Some((_, m)) = w.matched[i].take() else { halt("a message was received twice".into()) };
    *msg = RSMPI_MESSAGE_NULL;
    let s = receive(w, m, buf as *mut u8, count as usize, &types::get(t));
    put_status(st, s);
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Imrecv(buf: *mut c_void, count: c_int, t: Handle, msg: *mut Handle, req: *mut Handle) -> c_int {
    let mut st = std::mem::zeroed();
    MPI_Mrecv(buf, count, t, msg, &mut st);
    let w = w();
    let r = w.reqs.len();
    let me = w.cur;
    w.reqs.push(Req { rank: me, done: true, freed: false, stat: Stat { source: st.source, tag: st.tag, bytes: st.ucount }, kind: ReqKind::Recv, recv: None });
    *req = (REQ | ((r + 1) << 4)) as Handle;
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Irecv(buf: *mut c_void, count: c_int, t: Handle, src: c_int, tag: c_int, comm: Handle, req: *mut Handle) -> c_int {
    let w = w();
    if w.poisoned() {
        *req = RSMPI_REQUEST_NULL;
        return 0;
    }
    let r = w.reqs.len();
    let me = w.cur;
    w.reqs.push(Req {
        rank: me,
        done: false,
        freed: false,
        stat: Stat::default(),
        kind: ReqKind::Recv,
        recv: Some(PostedRecv { src, tag, comm: comm_id(comm), buf: buf as *mut u8, count: count as usize, ty: types::get(t) }),
    });
    *req = (REQ | ((r + 1) << 4)) as Handle;
    0
}

// ---------------------------------------------------------------- requests

unsafe fn req_id(h: Handle) -> Option<usize> {
    if h == RSMPI_REQUEST_NULL {
        return None;
    }
    let x = h as usize;
    if x & REQ != REQ {
        halt(format!("bad request handle {h:?}"));
    }
    Some(((x ^ REQ) >> 4) - 1)
}

/// Checks that a finished send left its buffer alone, and forgets the request.
fn finish(w: &mut World, i: usize) -> Stat {
    let (rank, st) = (w.reqs[i].rank, w.reqs[i].stat);
    if w.reqs[i].freed {
        w.fail(format!("rank {rank} completed a request twice"));
    }
    w.reqs[i].freed = true;
    if let ReqKind::Send { msg, .. } = w.reqs[i].kind {
        crate::alloc::unpin(msg);
    }
    st
}

/// Tries to complete a posted receive with a message that is there.
fn advance_recv(w: &mut World, i: usize) {
    if w.reqs[i].done {
        return;
    }
    if let Some(p) = w.reqs[i].recv.clone() {
        let me = w.reqs[i].rank;
        if let Some((s, at)) = w.find(me, p.src, p.tag, p.comm).first().copied() {
            let n = w.n;
            let m = w.queues[s * n + me].remove(at).unwrap();
            let st = receive(w, m, p.buf, p.count, &p.ty);
            w.reqs[i].stat = st;
            w.reqs[i].done = true;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Test(req: *mut Handle, flag: *mut c_int, st: *mut CStatus) -> c_int {
    let w = w();
    let Some(i) = req_id(*req) else {
        *flag = 1;
        return 0;
    };
    if w.poisoned() {
        *flag = 1;
        *req = RSMPI_REQUEST_NULL;
        return 0;
    }
    w.suspend(Status::Poll);
    let w = self::w();
    w.steps_since_progress += 1;
    advance_recv(w, i);
    if w.reqs[i].done && w.chooser.choose(2) == 0 {
        *flag = 1;
        *req = RSMPI_REQUEST_NULL;
        let s = finish(w, i);
        put_status(st, s);
        w.progress();
        let me = w.cur;
        w.ranks[me].idle_polls = 0;
        note(|| format!("test of request {i}: complete"));
        w.returned(0x56);
    } else {
        *flag = 0;
        let me = w.cur;
        w.ranks[me].idle_polls += 1;
        note(|| format!("test of request {i}: not yet"));
        w.returned(0x57);
    }
    0
}

fn wait_for(ids: Vec<usize>, all: bool) {
    let w = w();
    for i in &ids {
        if w.reqs[*i].recv.is_some() && !w.reqs[*i].done {
            let p = w.reqs[*i].recv.clone().unwrap();
            // (posted receives are only waited for one at a time here)
            w.suspend(Status::Message { src: p.src, tag: p.tag, comm: p.comm });
            advance_recv(self::w(), *i);
            if !all {
                return;
            }
        }
    }
    let w = self::w();
    w.suspend(Status::Requests { ids, all });
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Wait(req: *mut Handle, st: *mut CStatus) -> c_int {
    let Some(i) = req_id(*req) else { return 0 };
    if w().poisoned() {
        *req = RSMPI_REQUEST_NULL;
        return 0;
    }
    note(|| format!("wait for request {i}"));
    wait_for(vec![i], true);
    let w = w();
    *req = RSMPI_REQUEST_NULL;
    let s = finish(w, i);
    put_status(st, s);
    w.progress();
    w.returned(0x58);
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Waitall(n: c_int, reqs: *mut Handle, sts: *mut CStatus) -> c_int {
    for k in 0..n as usize {
        MPI_Wait(reqs.add(k), if sts.is_null() { sts } else { sts.add(k) });
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Waitany(n: c_int, reqs: *mut Handle, index: *mut c_int, st: *mut CStatus) -> c_int {
    let ids: Vec<(usize, usize)> = (0..n as usize).filter_map(|k| req_id(*reqs.add(k)).map(|i| (k, i))).collect();
    if ids.is_empty() {
        *index = RSMPI_UNDEFINED;
        return 0;
    }
    if w().poisoned() {
        *index = ids[0].0 as c_int;
        *reqs.add(ids[0].0) = RSMPI_REQUEST_NULL;
        return 0;
    }
    wait_for(ids.iter().map(|x| x.1).collect(), false);
    let w = w();
    let done: Vec<_> = ids.iter().filter(|x| w.reqs[x.1].done).collect();
    let c = w.chooser.choose(done.len());
    let (k, i) = *done[c];
    *index = k as c_int;
    *reqs.add(k) = RSMPI_REQUEST_NULL;
    let s = finish(w, i);
    put_status(st, s);
    w.progress();
    w.returned(0x59 + k as u64);
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Testall(n: c_int, reqs: *mut Handle, flag: *mut c_int, sts: *mut CStatus) -> c_int {
    let w = w();
    let ids: Vec<usize> = (0..n as usize).filter_map(|k| req_id(*reqs.add(k))).collect();
    w.suspend(Status::Poll);
    let w = self::w();
    w.steps_since_progress += 1;
    for i in &ids {
        advance_recv(w, *i);
    }
    if ids.iter().all(|i| w.reqs[*i].done) && w.chooser.choose(2) == 0 {
        *flag = 1;
        for i in &ids {
            finish(w, *i);
        }
        for k in 0..n as usize {
            *reqs.add(k) = RSMPI_REQUEST_NULL;
            if !sts.is_null() {
                put_status(sts.add(k), Stat::default());
            }
        }
        w.progress();
        let me = w.cur;
        w.ranks[me].idle_polls = 0;
        w.returned(0x5a);
    } else {
        *flag = 0;
        let me = w.cur;
        w.ranks[me].idle_polls += 1;
        w.returned(0x5b);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Cancel(_: *mut Handle) -> c_int {
    fail_unmodelled("MPI_Cancel")
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Request_free(req: *mut Handle) -> c_int {
    // The buffer stays in use: only the handle is gone.
    if let Some(i) = req_id(*req) {
        w().reqs[i].freed = true;
    }
    *req = RSMPI_REQUEST_NULL;
    0
}

fn fail_unmodelled(name: &str) -> c_int {
    eprintln!("{name} is not modelled");
    std::process::exit(3)
}

// ---------------------------------------------------------------- collectives

/// Takes part in a collective operation; returns what each rank contributed.
fn collective(name: String, comm: Handle, data: Vec<u8>) -> Option<Vec<Vec<u8>>> {
    let c = comm_id(comm);
    if c == 1 {
        return Some(vec![data]);
    }
    let w = w();
    if w.poisoned() {
        return None;
    }
    let me = w.cur;
    let seq = w.ranks[me].colls[c];
    w.ranks[me].colls[c] += 1;
    if w.colls[c].len() <= seq {
        let n = w.n;
        w.colls[c].push(Coll { name: name.clone(), arrived: vec![None; n], num: 0 });
    }
    note(|| format!("collective {seq}: {name}"));
    let k = &mut w.colls[c][seq];
    if k.name != name {
        let other = k.name.clone();
        w.fail(format!("rank {me} calls {name} where another rank calls {other}"));
    }
    let k = &mut w.colls[c][seq];
    k.arrived[me] = Some(data);
    k.num += 1;
    w.progress();
    w.returned(0x5c);
    w.suspend(Status::Collective { comm: c, seq });
    let w = self::w();
    if w.violation.is_some() && w.colls[c][seq].num < w.n {
        return None;
    }
    let all: Vec<Vec<u8>> = w.colls[c][seq].arrived.iter().map(|x| x.clone().unwrap()).collect();
    let mut h = 0;
    for a in &all {
        h = crate::world::mix(h, hash(a));
    }
    w.progress();
    w.returned(h);
    Some(all)
}

fn in_place(b: *const c_void) -> bool {
    // MPI_IN_PLACE is 1 in Open MPI
    b as usize == 1
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Barrier(comm: Handle) -> c_int {
    collective("Barrier".into(), comm, vec![]);
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Allgather(sb: *const c_void, sc: c_int, st: Handle, rb: *mut c_void, rc: c_int, rt: Handle, comm: Handle) -> c_int {
    let (s, r) = (types::get(st), types::get(rt));
    let data = s.pack(sb as *const u8, sc as usize);
    let bytes = data.len();
    if bytes != rc as usize * r.size {
        crate::world::fail(format!("Allgather sends {bytes} bytes and receives {} per rank", rc as usize * r.size));
    }
    if let Some(all) = collective(format!("Allgather({bytes} bytes)"), comm, data) {
        for (i, d) in all.iter().enumerate() {
            r.unpack((rb as *mut u8).offset(i as isize * rc as isize * r.extent()), rc as usize, d);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Allgatherv(sb: *const c_void, sc: c_int, st: Handle, rb: *mut c_void, rcs: *const c_int, displs: *const c_int, rt: Handle, comm: Handle) -> c_int {
    let (s, r) = (types::get(st), types::get(rt));
    let data = s.pack(sb as *const u8, sc as usize);
    if let Some(all) = collective("Allgatherv".into(), comm, data) {
        for (i, d) in all.iter().enumerate() {
            let c = *rcs.add(i) as usize;
            if d.len() != c * r.size {
                crate::world::fail(format!("Allgatherv: rank {i} sends {} bytes, {} are received", d.len(), c * r.size));
            }
            r.unpack((rb as *mut u8).offset(*displs.add(i) as isize * r.extent()), c, d);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Gather(sb: *const c_void, sc: c_int, st: Handle, rb: *mut c_void, rc: c_int, rt: Handle, root: c_int, comm: Handle) -> c_int {
    let data = types::get(st).pack(sb as *const u8, sc as usize);
    if let Some(all) = collective(format!("Gather(root {root})"), comm, data) {
        if crate::world::rank() == root as usize {
            let r = types::get(rt);
            for (i, d) in all.iter().enumerate() {
                if d.len() != rc as usize * r.size {
                    crate::world::fail(format!("Gather: rank {i} sends {} bytes, {} are received", d.len(), rc as usize * r.size));
                }
                r.unpack((rb as *mut u8).offset(i as isize * rc as isize * r.extent()), rc as usize, d);
            }
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Gatherv(sb: *const c_void, sc: c_int, st: Handle, rb: *mut c_void, rcs: *const c_int, displs: *const c_int, rt: Handle, root: c_int, comm: Handle) -> c_int {
    let data = types::get(st).pack(sb as *const u8, sc as usize);
    if let Some(all) = collective(format!("Gatherv(root {root})"), comm, data) {
        if crate::world::rank() == root as usize {
            let r = types::get(rt);
            for (i, d) in all.iter().enumerate() {
                let c = *rcs.add(i) as usize;
                if d.len() != c * r.size {
                    crate::world::fail(format!("Gatherv: rank {i} sends {} bytes, {} are received", d.len(), c * r.size));
                }
                r.unpack((rb as *mut u8).offset(*displs.add(i) as isize * r.extent()), c, d);
            }
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Bcast(b: *mut c_void, c: c_int, t: Handle, root: c_int, comm: Handle) -> c_int {
    let ty = types::get(t);
    let root_here = crate::world::rank() == root as usize;
    let data = if root_here { ty.pack(b as *const u8, c as usize) } else { vec![] };
    if let Some(all) = collective(format!("Bcast(root {root})"), comm, data) {
        let d = &all[root as usize];
        if d.len() != c as usize * ty.size {
            crate::world::fail(format!("Bcast: {} bytes are sent, {} received", d.len(), c as usize * ty.size));
        }
        if !root_here {
            ty.unpack(b as *mut u8, c as usize, d);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Scatter(sb: *const c_void, sc: c_int, st: Handle, rb: *mut c_void, rc: c_int, rt: Handle, root: c_int, comm: Handle) -> c_int {
    let me = crate::world::rank();
    let n = crate::world::size();
    let data = if me == root as usize { types::get(st).pack(sb as *const u8, sc as usize * n) } else { vec![] };
    if let Some(all) = collective(format!("Scatter(root {root})"), comm, data) {
        let r = types::get(rt);
        let d = &all[root as usize];
        let per = d.len() / n;
        r.unpack(rb as *mut u8, rc as usize, &d[me * per..(me + 1) * per]);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Alltoall(sb: *const c_void, sc: c_int, st: Handle, rb: *mut c_void, rc: c_int, rt: Handle, comm: Handle) -> c_int {
    let me = crate::world::rank();
    let n = crate::world::size();
    let data = types::get(st).pack(sb as *const u8, sc as usize * n);
    if let Some(all) = collective("Alltoall".into(), comm, data) {
        let r = types::get(rt);
        for (i, d) in all.iter().enumerate() {
            let per = d.len() / n;
            if per != rc as usize * r.size {
                crate::world::fail(format!("Alltoall: rank {i} sends {per} bytes, {} are received", rc as usize * r.size));
            }
            r.unpack((rb as *mut u8).offset(i as isize * rc as isize * r.extent()), rc as usize, &d[me * per..(me + 1) * per]);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Alltoallv(sb: *const c_void, scs: *const c_int, sds: *const c_int, st: Handle, rb: *mut c_void, rcs: *const c_int, rds: *const c_int, rt: Handle, comm: Handle) -> c_int {
    let me = crate::world::rank();
    let n = crate::world::size();
    let s = types::get(st);
    // header: the length of each part
    let mut data = vec![];
    let parts: Vec<Vec<u8>> = (0..n)
        .map(|i| s.pack((sb as *const u8).offset(*sds.add(i) as isize * s.extent()), *scs.add(i) as usize))
        .collect();
    for p in &parts {
        data.extend((p.len() as u64).to_le_bytes());
    }
    for p in &parts {
        data.extend(p);
    }
    if let Some(all) = collective("Alltoallv".into(), comm, data) {
        let r = types::get(rt);
        for (i, d) in all.iter().enumerate() {
            let lens: Vec<usize> = (0..n).map(|k| u64::from_le_bytes(d[k * 8..k * 8 + 8].try_into().unwrap()) as usize).collect();
            let start = n * 8 + lens[..me].iter().sum::<usize>();
            let c = *rcs.add(i) as usize;
            if lens[me] != c * r.size {
                crate::world::fail(format!("Alltoallv: rank {i} sends {} bytes, {} are received", lens[me], c * r.size));
            }
            r.unpack((rb as *mut u8).offset(*rds.add(i) as isize * r.extent()), c, &d[start..start + lens[me]]);
        }
    }
    0
}

fn reduce(op: Handle, t: Handle, count: usize, all: &[Vec<u8>]) -> Vec<u8> {
    let b = types::basic(t);
    let mut out = all[0].clone();
    macro_rules! num {
        ($ty:ty, $float:expr) => {{
            const N: usize = std::mem::size_of::<$ty>();
            for d in &all[1..] {
                for i in 0..count {
                    let x = <$ty>::from_ne_bytes(out[i * N..(i + 1) * N].try_into().unwrap());
                    let y = <$ty>::from_ne_bytes(d[i * N..(i + 1) * N].try_into().unwrap());
                    let z = unsafe {
                        if op == RSMPI_SUM {
                            add(x, y)
                        } else if op == RSMPI_PROD {
                            x * y
                        } else if op == RSMPI_MAX {
                            if y > x { y } else { x }
                        } else if op == RSMPI_MIN {
                            if y < x { y } else { x }
                        } else if op == RSMPI_LAND {
                            ((x != zero()) && (y != zero())) as u8 as $ty
                        } else if op == RSMPI_LOR {
                            ((x != zero()) || (y != zero())) as u8 as $ty
                        } else if op == RSMPI_LXOR {
                            ((x != zero()) ^ (y != zero())) as u8 as $ty
                        } else {
                            fail_unmodelled("this reduction");
                            x
                        }
                    };
                    out[i * N..(i + 1) * N].copy_from_slice(&z.to_ne_bytes());
                }
            }
        }};
    }
    trait A {
        fn a(self, o: Self) -> Self;
        fn z() -> Self;
    }
    macro_rules! a { ($($t:ty),*) => { $(impl A for $t { fn a(self, o: Self) -> Self { self.wrapping_add(o) } fn z() -> Self { 0 } })* } }
    a!(u8, u16, u32, u64, i8, i16, i32, i64);
    impl A for f32 {
        fn a(self, o: Self) -> Self {
            self + o
        }
        fn z() -> Self {
            0.0
        }
    }
    impl A for f64 {
        fn a(self, o: Self) -> Self {
            self + o
        }
        fn z() -> Self {
            0.0
        }
    }
    fn add<T: A>(x: T, y: T) -> T {
        x.a(y)
    }
    fn zero<T: A>() -> T {
        T::z()
    }
    match b {
        Some(Basic::F64) => num!(f64, true),
        Some(Basic::F32) => num!(f32, true),
        Some(Basic::U64) => num!(u64, false),
        Some(Basic::U32) => num!(u32, false),
        Some(Basic::U16) => num!(u16, false),
        Some(Basic::U8) | Some(Basic::Bool) => num!(u8, false),
        Some(Basic::I64) => num!(i64, false),
        Some(Basic::I32) => num!(i32, false),
        Some(Basic::I16) => num!(i16, false),
        Some(Basic::I8) => num!(i8, false),
        _ => {
            fail_unmodelled("a reduction of this datatype");
        }
    }
    out
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Allreduce(sb: *const c_void, rb: *mut c_void, c: c_int, t: Handle, op: Handle, comm: Handle) -> c_int {
    let ty = types::get(t);
    let src = if in_place(sb) { rb as *const c_void } else { sb };
    let data = ty.pack(src as *const u8, c as usize);
    if let Some(all) = collective(format!("Allreduce({op:?}, {} bytes)", data.len()), comm, data) {
        let out = reduce(op, t, c as usize, &all);
        ty.unpack(rb as *mut u8, c as usize, &out);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Reduce(sb: *const c_void, rb: *mut c_void, c: c_int, t: Handle, op: Handle, root: c_int, comm: Handle) -> c_int {
    let ty = types::get(t);
    let src = if in_place(sb) { rb as *const c_void } else { sb };
    let data = ty.pack(src as *const u8, c as usize);
    if let Some(all) = collective(format!("Reduce({op:?}, root {root}, {} bytes)", data.len()), comm, data) {
        if crate::world::rank() == root as usize {
            let out = reduce(op, t, c as usize, &all);
            ty.unpack(rb as *mut u8, c as usize, &out);
        }
    }
    0
}

unsafe fn scan(sb: *const c_void, rb: *mut c_void, c: c_int, t: Handle, op: Handle, comm: Handle, inclusive: bool) -> c_int {
    let ty = types::get(t);
    let src = if in_place(sb) { rb as *const c_void } else { sb };
    let data = ty.pack(src as *const u8, c as usize);
    if let Some(all) = collective(format!("Scan({op:?}, {inclusive}, {} bytes)", data.len()), comm, data) {
        let me = crate::world::rank();
        let k = if inclusive { me + 1 } else { me };
        if k > 0 {
            let out = reduce(op, t, c as usize, &all[..k]);
            ty.unpack(rb as *mut u8, c as usize, &out);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Scan(sb: *const c_void, rb: *mut c_void, c: c_int, t: Handle, op: Handle, comm: Handle) -> c_int {
    scan(sb, rb, c, t, op, comm, true)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Exscan(sb: *const c_void, rb: *mut c_void, c: c_int, t: Handle, op: Handle, comm: Handle) -> c_int {
    scan(sb, rb, c, t, op, comm, false)
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Sendrecv(sb: *const c_void, sc: c_int, st: Handle, dest: c_int, stag: c_int, rb: *mut c_void, rc: c_int, rt: Handle, src: c_int, rtag: c_int, comm: Handle, status: *mut CStatus) -> c_int {
    if w().poisoned() {
        return 0;
    }
    let mut req = RSMPI_REQUEST_NULL;
    immediate(sb, sc, st, dest, stag, comm, &mut req, false);
    MPI_Recv(rb, rc, rt, src, rtag, comm, status);
    MPI_Wait(&mut req, std::ptr::null_mut())
}

/// Refers to all functions, so that the linker takes them from here and not from libmpi.
pub fn keep() {
    let all: Vec<*const ()> = vec![
        MPI_Init_thread as *const (),
        MPI_Init as *const (),
        MPI_Initialized as *const (),
        MPI_Finalized as *const (),
        MPI_Finalize as *const (),
        MPI_Query_thread as *const (),
        MPI_Buffer_attach as *const (),
        MPI_Buffer_detach as *const (),
        MPI_Abort as *const (),
        MPI_Wtime as *const (),
        MPI_Wtick as *const (),
        MPI_Comm_rank as *const (),
        MPI_Comm_size as *const (),
        MPI_Comm_get_parent as *const (),
        MPI_Type_contiguous as *const (),
        MPI_Type_create_struct as *const (),
        MPI_Send as *const (),
        MPI_Isend as *const (),
        MPI_Improbe as *const (),
        MPI_Mprobe as *const (),
        MPI_Mrecv as *const (),
        MPI_Test as *const (),
        MPI_Wait as *const (),
        MPI_Allgather as *const (),
        MPI_Allgatherv as *const (),
        MPI_Allreduce as *const (),
        MPI_Barrier as *const (),
        MPI_Sendrecv as *const (),
        MPI_Scan as *const (),
        MPI_Alltoallv as *const (),
    ];
    std::hint::black_box(all);
    unsafe {
        std::hint::black_box((RSMPI_BAND, RSMPI_BOR, RSMPI_BXOR));
    }
}
