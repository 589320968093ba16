//! Stand-in for `fs2`: the same `flock(2)` calls the real crate makes on Unix, with a place to
//! inject delays around them (PACTMON_FS2_DELAY = upper bound in microseconds).
use std::fs::File;
use std::io::{Error, Result};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
pub trait FileExt {
    fn try_lock_shared(&self) -> Result<()>;
    fn try_lock_exclusive(&self) -> Result<()>;
    fn lock_shared(&self) -> Result<()>;
    fn lock_exclusive(&self) -> Result<()>;
    fn unlock(&self) -> Result<()>;
}
static SEED: AtomicU64 = AtomicU64::new(0);
fn delay() {
    static MAX: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    let max = *MAX.get_or_init(|| std::env::var("PACTMON_FS2_DELAY").ok().and_then(|s| s.parse().ok()).unwrap_or(0));
    if max > 0 {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.subsec_nanos() as u64).unwrap_or(0);
        let mut z = SEED.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed) ^ t ^ ((std::process::id() as u64) << 32);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^= z >> 31;
        if z & 3 != 0 { std::thread::sleep(std::time::Duration::from_micros((z >> 8) % max)); }
    }
}
fn flock(f: &File, op: i32) -> Result<()> {
    if op != libc::LOCK_UN { delay(); }
    let r = if unsafe { libc::flock(f.as_raw_fd(), op) } < 0 { Err(Error::last_os_error()) } else { Ok(()) };
    delay();
    r
}
impl FileExt for File {
    fn try_lock_shared(&self) -> Result<()> { flock(self, libc::LOCK_SH | libc::LOCK_NB) }
    fn try_lock_exclusive(&self) -> Result<()> { flock(self, libc::LOCK_EX | libc::LOCK_NB) }
    fn lock_shared(&self) -> Result<()> { flock(self, libc::LOCK_SH) }
    fn lock_exclusive(&self) -> Result<()> { flock(self, libc::LOCK_EX) }
    fn unlock(&self) -> Result<()> { flock(self, libc::LOCK_UN) }
}
