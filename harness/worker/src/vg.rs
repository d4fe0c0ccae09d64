//! Valgrind client requests (no effect outside valgrind).

#[cfg(all(target_arch = "x86_64", not(miri)))]
fn request(code: usize, a: usize, b: usize) -> usize {
    let args: [usize; 6] = [code, a, b, 0, 0, 0];
    let mut res = 0usize;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") &args, inout("rdx") res, out("rdi") _,
        );
    }
    res
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn request(_: usize, _: usize, _: usize) -> usize {
    0
}

const MC: usize = (b'M' as usize) << 24 | (b'C' as usize) << 16;

pub fn undefined(b: &[u8]) {
    request(MC + 1, b.as_ptr() as usize, b.len());
}
pub fn defined(b: &[u8]) {
    request(MC + 2, b.as_ptr() as usize, b.len());
}
/// address of the first undefined byte, or 0
pub fn first_undefined(b: &[u8]) -> usize {
    request(MC + 5, b.as_ptr() as usize, b.len())
}
/// errors reported so far
pub fn errors() -> usize {
    request(0x1201, 0, 0)
}
pub fn running() -> bool {
    request(0x1001, 0, 0) != 0
}
