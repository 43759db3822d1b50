//! Transient faults: one bit of a register or stack word of a running operation is
//! flipped after a chosen number of instructions. Each operation runs in a child
//! process, so that whatever the fault does stays there.
use std::io::Read;
use std::os::fd::FromRawFd;

struct Plan {
    at: u64,
    pick: u64,
    steps: u64,
    done: u64,
}
static mut PLAN: Plan = Plan { at: 0, pick: 0, steps: 0, done: 0 };

/// values that are plainly data: no address, small number, or mask
fn data(v: u64) -> bool {
    !matches!(v >> 47, 0 | 0x1ffff)
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    // SAFETY: the context the kernel passes; PLAN is only used by this thread
    unsafe {
        let g = &mut (*c.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        let p = &mut *(&raw mut PLAN);
        p.steps += 1;
        if p.steps < p.at {
            return;
        }
        if p.steps > p.at + 3000 {
            g[17] &= !0x100;
            return;
        }
        // from here on, the first moment at which the chosen place holds data
        let place = (p.pick >> 8) % 24;
        let bit = p.pick & 63;
        if place < 12 {
            // r8-r15, rbx, rdx, rax, rcx
            let r = [0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 14][place as usize];
            if !data(g[r] as u64) {
                return;
            }
            g[r] ^= 1 << bit;
        } else {
            let w = (g[15] as u64 + 8 * ((p.pick >> 16) % 80)) as *mut u64;
            if !data(w.read_unaligned()) {
                return;
            }
            w.write_unaligned(w.read_unaligned() ^ 1 << bit);
        }
        p.done = p.steps;
        // run on at full speed
        g[17] &= !0x100;
    }
}

pub enum Outcome {
    Output(Vec<u8>),
    /// an error or panic
    Refused,
    /// the process died, or did not end
    Died,
}

/// Runs `f` in a child, with a fault after `at` instructions; also the number of
/// instructions executed up to the fault (0: the place held no data).
#[inline(never)]
pub fn run(at: u64, pick: u64, f: &dyn Fn() -> Option<Vec<u8>>) -> (Outcome, u64) {
    // SAFETY: plain system calls; this process has one thread
    unsafe {
        let mut fd = [0; 2];
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fd[0]);
            libc::alarm(20);
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                libc::signal(s, libc::SIG_DFL);
            }
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_trap as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO;
            libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
            PLAN = Plan { at, pick, steps: 0, done: 0 };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
                let r = f();
                std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
                r
            }));
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            let p = &*(&raw const PLAN);
            let mut m = p.done.to_le_bytes().to_vec();
            match r {
                Ok(Some(v)) => {
                    m.push(1);
                    m.extend(v);
                }
                _ => m.push(0),
            }
            libc::write(fd[1], m.as_ptr().cast(), m.len());
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut m = vec![];
        std::fs::File::from_raw_fd(fd[0]).read_to_end(&mut m).ok();
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if st != 0 || m.len() < 9 {
            return (Outcome::Died, 0);
        }
        let n = u64::from_le_bytes(m[..8].try_into().unwrap());
        (if m[8] == 1 { Outcome::Output(m[9..].to_vec()) } else { Outcome::Refused }, n)
    }
}
