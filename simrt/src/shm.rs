//! Memory shared between the driver, its workers and their forked children.

use crate::plan::Call;

pub const COV: usize = 1 << 16;
pub const OUT: usize = 48 << 20;
const FK: usize = 512;

#[repr(C)]
pub struct Shared {
    pub cov: [u8; COV],
    pub calls: [u64; 16],
    /// Fault kinds: (name, count).
    pub fname: [[u8; 32]; FK],
    pub fcount: [u64; FK],
    /// Set of context-switch identities seen (edge, from, to).
    pub inter: [u64; 1 << 16],
    pub n_inter: u64,
    pub oom: u64,
    /// Where the running child is.
    pub cur_th: u64,
    pub cur_op: u64,
    pub len: u64,
    pub out: [u8; OUT],
}

static mut SHM: *mut Shared = std::ptr::null_mut();

pub fn map() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p.cast()
    }
}
pub fn attach(p: *mut Shared) {
    unsafe { SHM = p }
}
pub fn get() -> &'static mut Shared {
    unsafe { &mut *SHM }
}
pub fn attached() -> bool {
    unsafe { !SHM.is_null() }
}

#[inline(always)]
pub fn cover(id: u32) {
    unsafe {
        if !SHM.is_null() {
            (*SHM).cov[id as usize % COV] = 1;
        }
    }
}
pub fn count_call(c: Call) {
    if attached() {
        get().calls[c as usize] += 1;
    }
}
pub fn count_fault(c: Call, what: &str) {
    if !attached() {
        return;
    }
    let name = format!("{:?}:{}", c, what).to_lowercase();
    bump(&name);
}
pub fn bump(name: &str) {
    if !attached() {
        return;
    }
    let s = get();
    let b = name.as_bytes();
    let b = &b[..b.len().min(31)];
    for i in 0..FK {
        let z = s.fname[i].iter().position(|&x| x == 0).unwrap_or(32);
        if z == 0 {
            s.fname[i][..b.len()].copy_from_slice(b);
            s.fcount[i] += 1;
            return;
        }
        if &s.fname[i][..z] == b {
            s.fcount[i] += 1;
            return;
        }
    }
}
pub fn counters(s: &Shared) -> Vec<(String, u64)> {
    let mut v = vec![];
    for i in 0..FK {
        let z = s.fname[i].iter().position(|&x| x == 0).unwrap_or(32);
        if z == 0 {
            break;
        }
        v.push((String::from_utf8_lossy(&s.fname[i][..z]).into_owned(), s.fcount[i]));
    }
    v
}
pub fn interleave(h: u64) {
    if !attached() {
        return;
    }
    let s = get();
    let h = h | 1;
    let n = s.inter.len();
    let mut i = h as usize % n;
    for _ in 0..8 {
        if s.inter[i] == h {
            return;
        }
        if s.inter[i] == 0 {
            s.inter[i] = h;
            s.n_inter += 1;
            return;
        }
        i = (i + 1) % n;
    }
}
pub fn note_oom(n: usize) {
    if attached() {
        get().oom = n as u64;
    }
}
