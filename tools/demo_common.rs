// Shared by the demonstrations; every file they touch lies in the directory given as the first argument.
use possum::*;
use std::io::{Read, Seek, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, RwLock};
use std::time::{Duration, Instant};

pub fn dir() -> PathBuf {
    PathBuf::from(std::env::args().nth(1).expect("directory")).join("store")
}
pub fn open() -> Handle {
    Handle::new(dir()).expect("opening the store")
}
pub fn put(h: &Handle, k: &[u8], v: &[u8]) {
    h.single_write_from(k.to_vec(), v).expect("writing");
}
pub fn get(h: &Handle, k: &[u8]) -> Option<Vec<u8>> {
    let v = h.read_single(k).expect("reading")?;
    let mut b = vec![];
    v.new_reader().read_to_end(&mut b).expect("reading to the end");
    Some(b)
}
pub fn keys(h: &Handle, p: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<_> = h.list_items(p).expect("listing").into_iter().map(|i| i.key).collect();
    v.sort();
    v
}
pub fn values_files() -> Vec<PathBuf> {
    let mut v: Vec<_> = std::fs::read_dir(dir())
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("values-"))
        .collect();
    v.sort();
    v
}
/// Bytes the values files take up on disk.
pub fn allocated() -> u64 {
    use std::os::unix::fs::MetadataExt;
    values_files().iter().map(|p| p.metadata().map(|m| m.blocks() * 512).unwrap_or(0)).sum()
}
pub fn wait_until(secs: u64, mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + Duration::from_secs(secs);
    while Instant::now() < end {
        if f() {
            return true;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    f()
}
pub fn pattern(seed: u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(seed) | 1).collect()
}
pub fn sleep_ms(n: u64) {
    std::thread::sleep(Duration::from_millis(n));
}
#[repr(C)]
pub struct CLimits {
    pub max: u64,
    pub no_punch: bool,
}
extern "C" {
    fn possum_set_instance_limits(h: *mut Arc<RwLock<Handle>>, l: *const CLimits) -> i32;
}
/// Limits can only be set through the C interface.
pub fn with_limit(h: Handle, max: u64) -> Arc<RwLock<Handle>> {
    let mut h = Arc::new(RwLock::new(h));
    assert_eq!(unsafe { possum_set_instance_limits(&mut h, &CLimits { max, no_punch: false }) }, 0);
    h
}
