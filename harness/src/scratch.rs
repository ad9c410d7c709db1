//! Scratch directories: everything a check writes to disk is below one directory that is removed
//! at the end.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static N: AtomicU64 = AtomicU64::new(0);

pub fn root() -> PathBuf {
    let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    PathBuf::from(base).join(format!("verif-scratch-{}", std::process::id()))
}

/// A directory of the calling thread, reused
pub fn dir() -> PathBuf {
    let t = format!("{:?}", std::thread::current().id());
    let t: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
    let d = root().join(format!("t{}", t));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

pub struct Fresh(pub PathBuf);
impl Fresh {
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Fresh {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A new empty directory, removed when dropped
pub fn fresh() -> Fresh {
    let d = root().join(format!("n{}", N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).expect("scratch directory");
    Fresh(d)
}

pub fn cleanup() {
    let r = root();
    if r.exists() {
        let _ = std::fs::remove_dir_all(&r);
    }
}
