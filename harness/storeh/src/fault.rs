//! Fails chosen file-system calls of this thread, however they are issued.
//!
//! A seccomp filter turns the calls that change the file system into SIGSYS; the handler either
//! performs the call (from the one address the filter lets through) or returns an error.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

/// Number of calls until one fails (0: none does).
static LEFT: AtomicI64 = AtomicI64::new(0);
static ERRNO: AtomicI64 = AtomicI64::new(0);
/// Calls seen since armed.
static SEEN: AtomicU64 = AtomicU64::new(0);
/// The failing write transfers half of its bytes first.
static SHORT: AtomicU64 = AtomicU64::new(0);
static HIT: AtomicU64 = AtomicU64::new(0);

std::arch::global_asm!(
    ".globl storeh_syscall",
    ".globl storeh_syscall_ret",
    "storeh_syscall:",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rsi, rdx",
    "mov rdx, rcx",
    "mov r10, r8",
    "mov r8, r9",
    "mov r9, [rsp + 8]",
    "syscall",
    "storeh_syscall_ret:",
    "ret",
);
unsafe extern "C" {
    fn storeh_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64;
    static storeh_syscall_ret: u8;
}

const CALLS: [i64; 24] = [
    libc::SYS_open, libc::SYS_openat, libc::SYS_creat, libc::SYS_write, libc::SYS_pwrite64, libc::SYS_writev, libc::SYS_pwritev,
    libc::SYS_copy_file_range, libc::SYS_sendfile, libc::SYS_rename, libc::SYS_renameat, libc::SYS_renameat2, libc::SYS_link,
    libc::SYS_linkat, libc::SYS_unlink, libc::SYS_unlinkat, libc::SYS_ftruncate, libc::SYS_truncate, libc::SYS_fsync,
    libc::SYS_fdatasync, libc::SYS_mkdir, libc::SYS_mkdirat, libc::SYS_fallocate, libc::SYS_splice,
];

extern "C" fn on_sigsys(_: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let _ = info;
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let n = g[libc::REG_RAX as usize];
        let a: [i64; 6] = [libc::REG_RDI, libc::REG_RSI, libc::REG_RDX, libc::REG_R10, libc::REG_R8, libc::REG_R9].map(|r| g[r as usize]);
        // Output of the harness itself is left alone.
        let own = matches!(n, libc::SYS_write | libc::SYS_writev) && a[0] <= 2;
        if !own && LEFT.load(Relaxed) != 0 {
            SEEN.fetch_add(1, Relaxed);
            if LEFT.fetch_sub(1, Relaxed) == 1 {
                if SHORT.swap(0, Relaxed) == 1 && n == libc::SYS_write && a[2] > 1 {
                    // Half now, the error on the next call.
                    LEFT.store(1, Relaxed);
                    g[libc::REG_RAX as usize] = storeh_syscall(n, a[0], a[1], a[2] / 2, 0, 0, 0);
                    return;
                }
                HIT.store(1, Relaxed);
                g[libc::REG_RAX as usize] = -ERRNO.load(Relaxed);
                return;
            }
        }
        g[libc::REG_RAX as usize] = storeh_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
}

/// Whether faults can be injected here.
pub fn install() -> bool {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sigsys as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
        let ip = &raw const storeh_syscall_ret as u64;
        let st = |code: u32, k: u32| libc::sock_filter { code: code as u16, jt: 0, jf: 0, k };
        let jeq = |k: u32, jt: u8, jf: u8| libc::sock_filter { code: (libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K) as u16, jt, jf, k };
        let ld = libc::BPF_LD | libc::BPF_W | libc::BPF_ABS;
        let ret = libc::BPF_RET | libc::BPF_K;
        let mut p = vec![
            st(ld, 8),
            jeq(ip as u32, 0, 3),
            st(ld, 12),
            jeq((ip >> 32) as u32, 0, 1),
            st(ret, libc::SECCOMP_RET_ALLOW),
            st(ld, 0),
        ];
        let n = CALLS.len();
        for (i, c) in CALLS.iter().enumerate() {
            p.push(jeq(*c as u32, (n - i) as u8, 0));
        }
        p.push(st(ret, libc::SECCOMP_RET_ALLOW));
        p.push(st(ret, libc::SECCOMP_RET_TRAP));
        let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog) == 0
    }
}

/// The n-th call from now fails (0: none).
pub fn arm(n: i64, errno: i32, short: bool) {
    HIT.store(0, Relaxed);
    SEEN.store(0, Relaxed);
    ERRNO.store(errno as i64, Relaxed);
    SHORT.store(short as u64, Relaxed);
    // Counting goes on even if nothing is to fail.
    LEFT.store(if n == 0 { i64::MAX } else { n }, Relaxed);
}

/// Calls seen, and whether one failed.
pub fn disarm() -> (u64, bool) {
    LEFT.store(0, Relaxed);
    (SEEN.load(Relaxed), HIT.load(Relaxed) == 1)
}
