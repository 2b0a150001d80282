//! A directory of this process's own, removed at its end.

use std::path::PathBuf;

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let d = path_of(std::process::id());
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn path_of(pid: u32) -> PathBuf {
    // (in memory, where there is such a place)
    let root = Some(PathBuf::from("/dev/shm")).filter(|d| writable(d)).unwrap_or_else(std::env::temp_dir);
    root.join(format!("noodle-mc-{}", pid))
}

fn writable(dir: &std::path::Path) -> bool {
    use std::sync::OnceLock;
    static WRITABLE: OnceLock<bool> = OnceLock::new();
    *WRITABLE.get_or_init(|| {
        let f = dir.join(format!("noodle-mc-{}.try", std::process::id()));
        let ok = std::fs::write(&f, vec![0; 1 << 20]).is_ok();
        let _ = std::fs::remove_file(&f);
        ok
    })
}
