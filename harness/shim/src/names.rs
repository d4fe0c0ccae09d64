/// Functions of the C library whose use is counted.
const NAMES: [&str; 83] = [
    "write",
    "writev",
    "pwrite64",
    "read",
    "readv",
    "pread64",
    "open",
    "open64",
    "openat",
    "openat64",
    "creat",
    "close",
    "fopen",
    "fputs",
    "puts",
    "stat64",
    "lstat64",
    "fstat64",
    "statx",
    "access",
    "unlink",
    "unlinkat",
    "rename",
    "mkdir",
    "rmdir",
    "opendir",
    "readdir64",
    "readlink",
    "realpath",
    "getcwd",
    "chdir",
    "getenv",
    "setenv",
    "unsetenv",
    "clock_gettime",
    "gettimeofday",
    "time",
    "nanosleep",
    "clock_nanosleep",
    "usleep",
    "sched_yield",
    "getrandom",
    "getentropy",
    "syscall",
    "pthread_create",
    "fork",
    "vfork",
    "execvp",
    "execve",
    "posix_spawn",
    "posix_spawnp",
    "waitpid",
    "kill",
    "raise",
    "socket",
    "socketpair",
    "connect",
    "bind",
    "listen",
    "accept4",
    "send",
    "sendto",
    "sendmsg",
    "recv",
    "recvfrom",
    "getaddrinfo",
    "pipe",
    "pipe2",
    "dup",
    "dup2",
    "fcntl",
    "ioctl",
    "poll",
    "signal",
    "sigaction",
    "isatty",
    "getpid",
    "getppid",
    "getuid",
    "gethostname",
    "uname",
    "sysconf",
    "sched_getaffinity",
];
