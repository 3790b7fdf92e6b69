//! Value contents, failure reporting and raw file inspection shared by all checks.
use crate::rt::sched;
use std::path::Path;
use std::sync::OnceLock;

pub const BS: usize = 4096;

/// Byte i of value `id`: never zero, and different values and positions differ.
#[inline]
pub fn vbyte(id: u32, i: u64) -> u8 {
    let mut x = (id as u64) << 32 ^ i ^ (i >> 9).wrapping_mul(0x9E37);
    x = x.wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 29;
    (x % 255) as u8 + 1
}
pub fn vbytes(id: u32, len: usize) -> Vec<u8> {
    (0..len as u64).map(|i| vbyte(id, i)).collect()
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &c in b {
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    (a.rotate_left(17) ^ b).wrapping_mul(0x9E3779B97F4A7C15)
}

static ENABLED: OnceLock<Vec<String>> = OnceLock::new();
pub fn enable(tags: &[&str]) {
    let _ = ENABLED.set(tags.iter().map(|s| s.to_string()).collect());
}
static REMAP: OnceLock<String> = OnceLock::new();
/// From now on every deviation counts as one of this property.
pub fn remap(tag: &str) {
    let _ = REMAP.set(tag.into());
}
pub fn enabled(tag: &str) -> bool {
    ENABLED.get().map(|v| v.iter().any(|t| t == tag)).unwrap_or(true)
}
/// Reports a broken property. Deviations that belong to other properties end the execution quietly: the
/// checks of those properties report them.
pub fn fail(tag: &str, msg: impl AsRef<str>) -> ! {
    let tag = REMAP.get().map(|s| s.as_str()).unwrap_or(tag);
    if enabled(tag) || tag == "error" {
        sched::violation(tag, msg.as_ref());
    }
    crate::ev!("other property {}: {}", tag, msg.as_ref());
    sched::digest(0xdead);
    sched::finish_ok()
}
#[macro_export]
macro_rules! fail { ($t:expr, $($a:tt)*) => { $crate::util::fail($t, format!($($a)*)) } }
#[macro_export]
macro_rules! must { ($t:expr, $c:expr, $($a:tt)*) => { if !$c { $crate::util::fail($t, format!($($a)*)) } } }

/// Unwraps a result whose failure nothing in the scenario explains.
pub fn ok<T, E: std::fmt::Debug>(what: &str, r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => fail("error", format!("{what} failed: {}", trim(&format!("{e:?}")))),
    }
}
pub fn trim(s: &str) -> String {
    // Error texts carry no addresses; keep the first lines only.
    s.lines().take(6).collect::<Vec<_>>().join(" | ").chars().take(600).collect()
}
pub fn esc(k: &[u8]) -> String {
    format!("\"{}\"", k.escape_ascii())
}
/// Describes the first difference of two byte strings.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    if got == want {
        return "equal".into();
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("got {} bytes, want {}; first difference at {} ({:?} instead of {:?})", got.len(), want.len(), i, got.get(i), want.get(i))
}

/// Reads a raw file range without scheduling points; None if the file is missing or too short.
pub fn raw_read(p: &Path, off: u64, len: usize) -> Option<Vec<u8>> {
    sched::quiet(|| {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::open(p).ok()?;
        let mut v = vec![0; len];
        f.read_exact_at(&mut v, off).ok()?;
        Some(v)
    })
}
/// Data regions of a file according to the filesystem.
pub fn data_regions(p: &Path) -> Option<(u64, Vec<(u64, u64)>)> {
    sched::quiet(|| {
        use std::os::fd::AsRawFd;
        let f = std::fs::File::open(p).ok()?;
        let len = f.metadata().ok()?.len();
        let mut v = vec![];
        let mut o = 0i64;
        unsafe {
            loop {
                let d = libc::lseek64(f.as_raw_fd(), o, libc::SEEK_DATA);
                if d < 0 {
                    break;
                }
                let h = libc::lseek64(f.as_raw_fd(), d, libc::SEEK_HOLE);
                v.push((d as u64, h as u64));
                o = h;
            }
        }
        Some((len, v))
    })
}
/// Whether any byte of [a,b) is allocated.
pub fn has_data(regions: &[(u64, u64)], a: u64, b: u64) -> bool {
    regions.iter().any(|&(s, e)| s < b && e > a)
}

/// A source that delivers its bytes in irregular pieces.
pub struct Dribble<'a>(pub &'a [u8], pub usize);
impl std::io::Read for Dribble<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 += 1;
        let n = [700, 1, 3000][self.1 % 3].min(self.0.len()).min(b.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
