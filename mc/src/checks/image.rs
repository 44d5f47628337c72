//! Crash images: what the disk may hold if the machine stops after a prefix of
//! the recorded file operations.
use std::collections::{BTreeMap, BTreeSet};

use crate::os::{self, FOp, FileLog};

#[derive(Clone, Default)]
pub struct Disk {
    /// path -> file
    names: BTreeMap<String, u32>,
    dirs: BTreeSet<String>,
    data: BTreeMap<u32, Vec<u8>>,
    /// contents as of the last sync
    synced: BTreeMap<u32, Vec<u8>>,
    /// per directory with a transaction log: every content the log had, and
    /// the other files at that time
    snaps: BTreeMap<String, Vec<(Vec<u8>, Image)>>,
}
pub type Image = BTreeMap<String, Vec<u8>>;
const TXLOG: &str = "/_transactions";

/// How the writes that were not synced end up.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Loss {
    /// everything reached the disk
    Nothing,
    /// only this many bytes of the last write reached the disk
    Torn(usize),
    /// nothing written since its last sync survives, in any file
    Unsynced,
    /// the same for one file (the n-th with such writes)
    One(usize),
}

impl Disk {
    /// The disk before the log starts.
    pub fn before(root: &str, log: &FileLog) -> Self {
        let mut d = Self::default();
        let _ = root;
        for (p, fid, bytes) in &log.base_data {
            d.names.insert(p.clone(), *fid);
            d.data.insert(*fid, bytes.clone());
            d.synced.insert(*fid, bytes.clone());
        }
        for p in &log.base_dirs {
            d.dirs.insert(p.clone());
        }
        let logs: Vec<String> = d.names.keys().filter(|p| p.ends_with(TXLOG)).cloned().collect();
        for l in logs {
            d.snap(&l);
        }
        d
    }
    fn snap(&mut self, log: &str) {
        let dir = log.strip_suffix(TXLOG).unwrap().to_string();
        let now: Image = self.siblings(&dir).into_iter().map(|(p, f)| (p, self.data.get(&f).cloned().unwrap_or_default())).collect();
        let l = self.names.get(log).and_then(|f| self.data.get(f)).cloned().unwrap_or_default();
        self.snaps.entry(dir).or_default().push((l, now));
    }
    fn siblings(&self, dir: &str) -> Vec<(String, u32)> {
        let pre = format!("{dir}/");
        self.names.iter().filter(|(p, _)| p.starts_with(&pre) && !p.ends_with(TXLOG)).map(|(p, f)| (p.clone(), *f)).collect()
    }
    /// The same disk, with every tree as it was when the transaction log got
    /// the content it has in `image`. None when the log has no such content.
    fn settled(&self, image: &Image) -> Option<Image> {
        let mut out = image.clone();
        let mut dirs: BTreeSet<String> = self.snaps.keys().cloned().collect();
        dirs.extend(image.keys().filter_map(|p| p.rsplit_once('/').map(|d| d.0.to_string())).filter(|d| image.contains_key(&format!("{d}{TXLOG}"))));
        for d in dirs {
            let log = image.get(&format!("{d}{TXLOG}")).cloned().unwrap_or_default();
            let snap = match self.snaps.get(&d).and_then(|s| s.iter().rev().find(|s| s.0 == log)) {
                Some(s) => s.1.clone(),
                None if log.is_empty() => Image::new(),
                None => return None,
            };
            let pre = format!("{d}/");
            out.retain(|p, _| !p.starts_with(&pre) || p.ends_with(TXLOG));
            out.extend(snap);
        }
        Some(out)
    }
    pub fn apply(&mut self, op: &FOp) {
        match op {
            FOp::Create { path, fid } => {
                self.names.insert(path.clone(), *fid);
                self.data.insert(*fid, vec![]);
                self.synced.insert(*fid, vec![]);
            }
            FOp::Write { fid, off, data } => {
                let f = self.data.entry(*fid).or_default();
                let end = *off as usize + data.len();
                if f.len() < end {
                    f.resize(end, 0);
                }
                f[*off as usize..end].copy_from_slice(data);
                let logs: Vec<String> = self.names.iter().filter(|(p, f)| *f == fid && p.ends_with(TXLOG)).map(|n| n.0.clone()).collect();
                for l in logs {
                    self.snap(&l);
                }
            }
            FOp::Trunc { fid, len } => {
                self.data.entry(*fid).or_default().resize(*len as usize, 0);
            }
            FOp::Sync { fid } => {
                let d = self.data.get(fid).cloned().unwrap_or_default();
                self.synced.insert(*fid, d);
            }
            FOp::Rename { from, to } => {
                if let Some(f) = self.names.remove(from) {
                    self.names.insert(to.clone(), f);
                }
            }
            FOp::Unlink { path } => {
                self.names.remove(path);
            }
            FOp::Mkdir { path } => {
                self.dirs.insert(path.clone());
            }
            FOp::Rmdir { path } => {
                self.dirs.remove(path);
            }
            FOp::Mark(_) => {}
        }
    }
    fn dirty(&self) -> Vec<u32> {
        self.names.values().copied().filter(|f| self.data.get(f) != self.synced.get(f)).collect()
    }
    /// The losses worth looking at when `last` is the next operation to happen.
    pub fn losses(&self, last: Option<&FOp>) -> Vec<Loss> {
        let mut v = vec![Loss::Nothing];
        if let Some(FOp::Write { data, off, .. }) = last {
            // pages of 4096 bytes reach the disk whole or not at all
            const PAGE: u64 = 4096;
            let first = (PAGE - *off % PAGE) as usize;
            let all: Vec<usize> = (first..data.len()).step_by(PAGE as usize).collect();
            let mut cuts = vec![];
            if let (Some(a), Some(b)) = (all.first(), all.last()) {
                cuts = vec![*a, all[all.len() / 2], *b];
                cuts.dedup();
            }
            v.extend(cuts.into_iter().map(Loss::Torn));
        }
        let d = self.dirty();
        if !d.is_empty() {
            v.push(Loss::Unsynced);
            if d.len() > 1 {
                v.extend((0..d.len()).map(Loss::One));
            }
        }
        v
    }
    /// Identifies an image, to skip the ones already looked at.
    pub fn hash(&self, loss: Loss, last: Option<&FOp>) -> u64 {
        crate::seq::h(&self.image(loss, last))
    }
    fn image(&self, loss: Loss, last: Option<&FOp>) -> Image {
        let mut d = self.clone();
        match (loss, last) {
            (Loss::Torn(n), Some(FOp::Write { fid, off, data })) => {
                d.apply(&FOp::Write { fid: *fid, off: *off, data: data[..n].to_vec() });
            }
            (Loss::Unsynced, _) => d.data = d.synced.clone(),
            (Loss::One(i), _) => {
                let f = self.dirty()[i];
                d.data.insert(f, d.synced.get(&f).cloned().unwrap_or_default());
            }
            _ => {}
        }
        d.names.iter().map(|(p, f)| (p.clone(), d.data.get(f).cloned().unwrap_or_default())).collect()
    }
    /// Writes the image below `to` (paths of the log start with `root`).
    pub fn write(&self, root: &str, to: &str, image: &Image) {
        os::raw(|| {
            std::fs::create_dir_all(to).unwrap();
            for d in &self.dirs {
                if let Some(r) = d.strip_prefix(root) {
                    std::fs::create_dir_all(format!("{to}{r}")).unwrap();
                }
            }
            for (p, bytes) in image {
                if let Some(r) = p.strip_prefix(root) {
                    let p = format!("{to}{r}");
                    if let Some(d) = std::path::Path::new(&p).parent() {
                        std::fs::create_dir_all(d).unwrap();
                    }
                    std::fs::write(p, bytes).unwrap();
                }
            }
        });
    }
    pub fn describe(op: &FOp, names: &Disk) -> String {
        let name = |fid: &u32| names.names.iter().find(|n| n.1 == fid).map_or_else(|| format!("#{fid}"), |n| n.0.rsplit('/').next().unwrap_or("").to_string());
        match op {
            FOp::Write { fid, data, off } => format!("write {} bytes at {off} to {}", data.len(), name(fid)),
            FOp::Sync { fid } => format!("sync {}", name(fid)),
            FOp::Trunc { fid, len } => format!("truncate {} to {len}", name(fid)),
            FOp::Create { path, .. } => format!("create {}", path.rsplit('/').next().unwrap_or("")),
            FOp::Rename { from, to } => format!("rename {} to {}", from.rsplit('/').next().unwrap_or(""), to.rsplit('/').next().unwrap_or("")),
            FOp::Unlink { path } => format!("unlink {}", path.rsplit('/').next().unwrap_or("")),
            FOp::Mkdir { path } => format!("mkdir {}", path.rsplit('/').next().unwrap_or("")),
            FOp::Rmdir { path } => format!("rmdir {}", path.rsplit('/').next().unwrap_or("")),
            FOp::Mark(k) => format!("acknowledged {k}"),
        }
    }
}

/// One crash image.
pub struct Point<'a> {
    pub dir: &'a str,
    pub what: &'a str,
    /// the last mark passed
    pub mark: Option<u64>,
    /// file operations done
    pub done: usize,
}

/// Calls `f` with every distinct crash image of operations `from..` of the log.
/// The second argument of `f` rewrites the image with the pages of interrupted
/// transactions taken out (false when that cannot be told).
pub fn crashes(root: &str, log: &FileLog, from: usize, scratch: &str, mut f: impl FnMut(&Point, &dyn Fn() -> bool) -> bool) -> (u64, u64) {
    let mut d = Disk::before(root, log);
    let mut mark = None;
    let mut seen = BTreeSet::new();
    let (mut points, mut images) = (0, 0);
    for i in 0..=log.ops.len() {
        let next = log.ops.get(i);
        if i >= from {
            points += 1;
            for loss in d.losses(next) {
                if !seen.insert((d.hash(loss, next), mark)) {
                    continue;
                }
                images += 1;
                let dir = format!("{scratch}/image{images}");
                let image = d.image(loss, next);
                d.write(root, &dir, &image);
                let what = format!("crash before {}{}", next.map_or("nothing more".into(), |n| Disk::describe(n, &d)), if loss == Loss::Nothing { String::new() } else { format!(" ({loss:?})") });
                let clean = || {
                    os::raw(|| {
                        let _ = std::fs::remove_dir_all(&dir);
                    });
                };
                let go = f(&Point { dir: &dir, what: &what, mark, done: i }, &|| {
                    clean();
                    let settled = d.settled(&image);
                    if let Some(s) = &settled {
                        d.write(root, &dir, s);
                    }
                    settled.is_some()
                });
                clean();
                if !go {
                    return (points, images);
                }
            }
        }
        if let Some(n) = next {
            if let FOp::Mark(k) = n {
                mark = Some(*k);
            }
            d.apply(n);
        }
    }
    (points, images)
}

/// In one of the databases, the last entry of the transaction log has more
/// pages than were written.
pub fn cut_log(storage: &str) -> bool {
    const PAGE: usize = 1024;
    let cut = |log: Vec<u8>| {
        let pages: Vec<&[u8]> = log.chunks_exact(PAGE).collect();
        // pages begin with the length of the entry that starts there, or with zero
        pages.iter().rposition(|p| p[0] == 1).is_some_and(|at| {
            let length = usize::from(pages[at][1]) << 16 | usize::from(pages[at][2]) << 8 | usize::from(pages[at][3]);
            // (further pages have a header of one byte)
            length > (pages.len() - at) * (PAGE - 1) - 3
        })
    };
    os::raw(|| {
        std::fs::read_dir(storage).into_iter().flatten().flatten().filter_map(|d| std::fs::read(format!("{}{TXLOG}", d.path().display())).ok()).any(cut)
    })
}
