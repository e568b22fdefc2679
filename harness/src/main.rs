/// The system call, by way of the plan of the case that runs on this thread, if it has one (D04).
#[no_mangle]
pub extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    mc::io::on_read(fd, buf, n)
}
#[no_mangle]
pub extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    match mc::io::on_open() {
        Some(_) => -1,
        None => unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode as libc::c_uint) as libc::c_int },
    }
}

fn main() { mc::cli::main(mc::props::core()) }
