//! Breadcrumbs and fatal-signal reporting, and the panic capture.
use std::cell::RefCell;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

#[derive(Clone, Copy)]
pub struct Crumb {
    pub case: u64,
    pub op: u64,
    pub owners: u32,
    pub name: &'static str,
}
pub static mut CRUMB: Crumb = Crumb { case: 0, op: 0, owners: 0, name: "startup" };

#[inline]
pub fn set_case(case: u64) {
    unsafe { CRUMB.case = case }
}
pub static mut SEQ: u64 = 0;
#[inline]
pub fn set(op: u64, name: &'static str, owners: u32) {
    unsafe {
        SEQ += 1;
        CRUMB.op = op;
        CRUMB.name = name;
        CRUMB.owners = owners;
    }
}

pub fn install_panic_capture() {
    std::panic::set_hook(Box::new(|info| {
        crate::alloc::force_out();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{msg} @ {loc}");
        if text.contains("unsafe precondition") || std::env::var_os("ECSMON_PANICS").is_some() {
            eprintln!("PANIC {text}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Print "CRASH what case op owners name" with async-signal-safe means only.
#[cfg(feature = "track")]
fn emit(what: &str) {
    let mut buf = [0u8; 512];
    let mut n = 0;
    let mut put = |s: &[u8]| {
        for &b in s {
            if n < buf.len() {
                buf[n] = b;
                n += 1;
            }
        }
    };
    fn num(mut v: u64, out: &mut [u8; 20]) -> usize {
        let mut i = 20;
        loop {
            i -= 1;
            out[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                return i;
            }
        }
    }
    let c = unsafe { CRUMB };
    put(b"\nCRASH {\"what\":\"");
    put(what.as_bytes());
    let mut d = [0u8; 20];
    put(b"\",\"case\":");
    let i = num(c.case, &mut d);
    put(&d[i..]);
    put(b",\"op\":");
    let i = num(c.op, &mut d);
    put(&d[i..]);
    put(b",\"owners\":");
    let i = num(c.owners as u64, &mut d);
    put(&d[i..]);
    put(b",\"name\":\"");
    put(c.name.as_bytes());
    put(b"\"}\n");
    unsafe {
        libc::write(1, buf.as_ptr() as *const libc::c_void, n);
    }
}

#[cfg(feature = "track")]
pub fn runaway() -> ! {
    emit("runaway allocation in one call");
    unsafe { libc::_exit(70) }
}

#[cfg(feature = "track")]
pub fn install_signal_handlers() {
    extern "C" fn handler(sig: libc::c_int) {
        emit(match sig {
            libc::SIGSEGV => "SIGSEGV",
            libc::SIGBUS => "SIGBUS",
            libc::SIGABRT => "SIGABRT",
            libc::SIGILL => "SIGILL",
            libc::SIGFPE => "SIGFPE",
            _ => "signal",
        });
        unsafe { libc::_exit(70) }
    }
    extern "C" fn tick(_sig: libc::c_int) {
        static mut LAST: u64 = u64::MAX;
        static mut SAME: u32 = 0;
        unsafe {
            if SEQ == LAST {
                SAME += 1;
                if SAME >= 8 {
                    emit("no return after 16 s of cpu time");
                    libc::_exit(71)
                }
            } else {
                LAST = SEQ;
                SAME = 0;
            }
        }
    }
    unsafe {
        // own alternate stack, so that a stack overflow is reported as well
        let size = 64 * 1024;
        let sp = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let ss = libc::stack_t { ss_sp: sp, ss_flags: 0, ss_size: size };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = handler as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = tick as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_RESTART;
        libc::sigaction(libc::SIGVTALRM, &sa, std::ptr::null_mut());
    }
}
/// CPU-time watchdog over single library calls: ticks every two seconds of cpu
/// time and fires when the same call was running at nine ticks in a row.
#[cfg(feature = "track")]
pub fn watchdog() {
    unsafe {
        let two = libc::timeval { tv_sec: 2, tv_usec: 0 };
        let t = libc::itimerval { it_interval: two, it_value: two };
        libc::setitimer(libc::ITIMER_VIRTUAL, &t, std::ptr::null_mut());
    }
}
#[cfg(not(feature = "track"))]
pub fn install_signal_handlers() {}
#[cfg(not(feature = "track"))]
pub fn watchdog() {}
