mod access;
mod built;
mod hostile;
mod nothing;
mod text;

/// Leaks are counted by the harness itself: the leak checker of the sanitizer stops the process to look at it.
#[no_mangle]
pub extern "C" fn __asan_default_options() -> *const libc::c_char { b"detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:symbolize=0\0".as_ptr() as *const libc::c_char }

#[global_allocator]
static ALLOC: access::Counting = access::Counting;

fn main() {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  // the library reports what it caught on stderr
  if std::env::args().nth(1).as_deref() == Some("child") && std::env::var("PACTMON_TRACE").is_err() {
    unsafe { let fd = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY); if fd >= 0 { libc::dup2(fd, 2); } }
  }
  moncore::main_with(vec![hostile::prop(), built::prop(), access::prop()]);
}
