//! Process isolation: every simulated run happens in a freshly forked child of a process in which the library
//! has never run, so static and thread-local state always starts from zero.
use crate::rt;
use std::ptr::null_mut;

pub struct Shm {
    p: *mut u8,
    len: usize,
}
unsafe impl Send for Shm {}
impl Shm {
    pub fn new(len: usize) -> Shm {
        let p = unsafe { libc::mmap(null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        if p == libc::MAP_FAILED {
            die("mmap failed");
        }
        Shm { p: p as *mut u8, len }
    }
    pub fn write(&self, s: &[u8]) {
        let n = s.len().min(self.len - 8);
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(8), n);
            *(self.p as *mut u64) = n as u64;
        }
    }
    pub fn clear(&self) {
        unsafe { *(self.p as *mut u64) = 0 }
    }
    pub fn read(&self) -> Vec<u8> {
        unsafe {
            let n = (*(self.p as *const u64) as usize).min(self.len - 8);
            std::slice::from_raw_parts(self.p.add(8), n).to_vec()
        }
    }
    pub fn ptr(&self) -> *mut u8 {
        self.p
    }
}

pub fn die(m: &str) -> ! {
    eprintln!("lrpsim: harness error: {}", m);
    std::process::exit(2)
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Ok(Vec<u8>),
    /// step limit reached, with the last progress mark
    StepLimit,
    Exit(i32),
    Signal(i32),
    /// CPU limit: the library did not come back
    Hang,
}

pub const CPU_LIMIT_S: u64 = 40;
pub const MEM_LIMIT: u64 = 3 << 30;

/// Runs `f` in a forked child; its return value comes back through shared memory.
pub fn isolated(shm: &Shm, f: impl FnOnce() -> Vec<u8>) -> End {
    shm.clear();
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            die("fork failed");
        }
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: 3600 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            // a runaway allocation ends this child, not the sandbox
            let mem = libc::rlimit { rlim_cur: MEM_LIMIT, rlim_max: MEM_LIMIT };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            rt::ALLOCS.store(0, std::sync::atomic::Ordering::Relaxed);
            let r = f();
            shm.write(&r);
            libc::_exit(0);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                die("waitpid failed");
            }
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGXCPU {
                return End::Hang;
            }
            return End::Signal(s);
        }
        match libc::WEXITSTATUS(st) {
            0 => End::Ok(shm.read()),
            rt::EXIT_STEP_LIMIT => End::StepLimit,
            c => End::Exit(c),
        }
    }
}

/// The CPU limit counts from here again (a job of a long history starts).
pub fn cpu_rearm() {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        let used = (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as u64;
        let lim = libc::rlimit { rlim_cur: used + CPU_LIMIT_S, rlim_max: 3600 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
    }
}

pub fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have) == 0 {
            let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &have)).collect();
            if !cpus.is_empty() {
                libc::CPU_SET(cpus[cpu % cpus.len()], &mut set);
                libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
            }
        }
    }
}
pub fn cpus() -> usize {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have) == 0 {
            return (libc::CPU_COUNT(&have) as usize).max(1);
        }
    }
    1
}
