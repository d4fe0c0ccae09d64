//! Which functions of the C library that reach the system an operation calls.
//! The linker directs them here (`--wrap`, see build.rs).

use std::cell::Cell;

include!("names.rs");

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Sys {
    pub operations: u64,
    pub calls: u64,
    /// index of the first function called
    pub first: u64,
}
const ZERO: Sys = Sys { operations: 0, calls: 0, first: 0 };

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static SUM: Cell<Sys> = const { Cell::new(ZERO) };
}

pub fn name(i: u64) -> &'static str {
    NAMES[i as usize]
}

pub fn switch(on: bool) -> Sys {
    ON.with(|x| x.set(on));
    SUM.with(|x| x.replace(ZERO))
}

pub fn during<T>(f: impl FnOnce() -> T) -> T {
    if !ON.with(|x| x.get()) {
        return f();
    }
    INSIDE.with(|x| x.set(true));
    let r = f();
    // text may be waiting in a buffer
    let _ = std::io::Write::flush(&mut std::io::stdout());
    INSIDE.with(|x| x.set(false));
    SUM.with(|s| {
        let mut m = s.get();
        m.operations += 1;
        s.set(m);
    });
    r
}

#[cfg(sys)]
#[no_mangle]
extern "C" fn shim_sys_note(i: u64, arg: u64) -> u32 {
    const FUTEX: u64 = 202;
    if NAMES[i as usize] == "syscall" && arg == FUTEX {
        return 0;
    }
    if !INSIDE.try_with(|x| x.get()).unwrap_or(false) {
        return 0;
    }
    let _ = SUM.try_with(|s| {
        let mut m = s.get();
        if m.calls == 0 {
            m.first = i;
        }
        m.calls += 1;
        s.set(m);
    });
    REFUSED.contains(&NAMES[i as usize]) as u32
}
/// Not carried out: they fail, so that nothing outside is changed.
#[cfg(sys)]
const REFUSED: [&str; 20] = [
    "open", "open64", "openat", "openat64", "creat", "unlink", "unlinkat", "rename", "mkdir", "rmdir", "chdir",
    "kill", "fork", "vfork", "execvp", "execve", "posix_spawn", "posix_spawnp", "socket", "connect",
];

#[cfg(sys)]
macro_rules! wrap {
    ($($i:literal $name:literal)*) => {$(
        std::arch::global_asm!(
            concat!(".globl __wrap_", $name),
            concat!(".type __wrap_", $name, ",@function"),
            concat!("__wrap_", $name, ":"),
            "push rdi", "push rsi", "push rdx", "push rcx", "push r8", "push r9", "push rax",
            "mov rsi, rdi",
            concat!("mov edi, ", $i),
            "call shim_sys_note@PLT",
            "mov r11d, eax",
            "pop rax", "pop r9", "pop r8", "pop rcx", "pop rdx", "pop rsi", "pop rdi",
            "test r11d, r11d",
            "jnz 2f",
            concat!("jmp qword ptr [rip + __real_", $name, "@GOTPCREL]"),
            "2: mov rax, -1",
            "ret",
        );
    )*};
}
// in the order of NAMES
#[cfg(sys)]
wrap! {
    0 "write"
    1 "writev"
    2 "pwrite64"
    3 "read"
    4 "readv"
    5 "pread64"
    6 "open"
    7 "open64"
    8 "openat"
    9 "openat64"
    10 "creat"
    11 "close"
    12 "fopen"
    13 "fputs"
    14 "puts"
    15 "stat64"
    16 "lstat64"
    17 "fstat64"
    18 "statx"
    19 "access"
    20 "unlink"
    21 "unlinkat"
    22 "rename"
    23 "mkdir"
    24 "rmdir"
    25 "opendir"
    26 "readdir64"
    27 "readlink"
    28 "realpath"
    29 "getcwd"
    30 "chdir"
    31 "getenv"
    32 "setenv"
    33 "unsetenv"
    34 "clock_gettime"
    35 "gettimeofday"
    36 "time"
    37 "nanosleep"
    38 "clock_nanosleep"
    39 "usleep"
    40 "sched_yield"
    41 "getrandom"
    42 "getentropy"
    43 "syscall"
    44 "pthread_create"
    45 "fork"
    46 "vfork"
    47 "execvp"
    48 "execve"
    49 "posix_spawn"
    50 "posix_spawnp"
    51 "waitpid"
    52 "kill"
    53 "raise"
    54 "socket"
    55 "socketpair"
    56 "connect"
    57 "bind"
    58 "listen"
    59 "accept4"
    60 "send"
    61 "sendto"
    62 "sendmsg"
    63 "recv"
    64 "recvfrom"
    65 "getaddrinfo"
    66 "pipe"
    67 "pipe2"
    68 "dup"
    69 "dup2"
    70 "fcntl"
    71 "ioctl"
    72 "poll"
    73 "signal"
    74 "sigaction"
    75 "isatty"
    76 "getpid"
    77 "getppid"
    78 "getuid"
    79 "gethostname"
    80 "uname"
    81 "sysconf"
    82 "sched_getaffinity"
}
