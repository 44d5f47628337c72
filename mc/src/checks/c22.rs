//! C22: what is configured to be encrypted is never on disk as it is, and can
//! only be read with the key.
use std::path::{Path, PathBuf};

use bonsaidb_core::connection::Connection;
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::vault::LocalVaultKeyStorage;
use serde_json::json;

use bonsaidb_core::schema::Collection;

use super::c21::{Raw, compact, observe, Conf, Model, Secret, Sys, Vaulted, A, CONFS};
use super::world::{self, Basic};
use crate::engine;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};

fn es<T: ToString>(e: T) -> String {
    e.to_string()
}
fn dir() -> PathBuf {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    PathBuf::from(format!("{}/v{}", engine::scratch(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)))
}
fn conf(c: Conf, dir: &Path, keys: &str) -> Result<StorageConfiguration, String> {
    let conf = world::config_at(&dir.join("db").display().to_string(), false);
    Ok(c.apply(conf).vault_key_storage(LocalVaultKeyStorage::new(dir.join(keys)).map_err(es)?))
}
/// All bytes of all files of the storage.
fn bytes(dir: &Path, out: &mut Vec<(PathBuf, Vec<u8>)>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.path().is_dir() {
            bytes(&e.path(), out);
        } else {
            out.push((e.path(), std::fs::read(e.path()).unwrap_or_default()));
        }
    }
}
fn find(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
/// What must not be found, what would be found without encryption.
fn scan(dir: &Path, words: &[&str]) -> Result<(), String> {
    let mut files = vec![];
    bytes(dir, &mut files);
    for (f, b) in &files {
        for w in words {
            if find(b, w.as_bytes()) {
                return Err(format!("{w:?} can be read in {}", f.strip_prefix(dir).unwrap().display()));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum W {
    Basic(u64),
    Secret(u64),
    Delete,
    Key,
    Unset,
    Query,
    CompactAll,
    CompactSecret,
    CompactKeys,
    Reopen,
}
const VOCAB: [W; 10] = [W::Basic(1), W::Secret(1), W::Secret(2), W::Delete, W::Key, W::Unset, W::Query, W::CompactAll, W::CompactSecret, W::Reopen];

/// Texts that appear in documents, keys of views, keys and values.
const PLAIN: &str = "BasicTextOfTheDocument";
const PLAIN_TAG: &str = "BasicTagOfTheView";
const SECRET: &str = "SecretTextOfTheDocument";
const SECRET_TAG: &str = "SecretTagOfTheView";
const KEY: &str = "NameOfTheKey";
const USER: &str = "NameOfTheUser";
const VALUE: &str = "ValueOfTheKey";

fn act(s: &mut Sys, w: W) -> Result<(), String> {
    s.n += 1;
    match w {
        W::Basic(i) => {
            let d = Basic { v: s.n, tags: vec![PLAIN_TAG.into(), PLAIN.into()] };
            bonsaidb_core::schema::SerializedCollection::overwrite_into(d, &i, s.db()).map_err(es)?;
        }
        W::Secret(i) => {
            let d = Secret { text: format!("{SECRET}{}", if i == 1 { String::new() } else { "long ".repeat(60) }), tags: vec![SECRET_TAG.into()] };
            bonsaidb_core::schema::SerializedCollection::overwrite_into(d, &i, s.db()).map_err(es)?;
        }
        W::Delete => super::c21::del(s.db(), true, 1)?,
        W::Key => {
            s.db().set_key(KEY, &VALUE).execute().map_err(es)?;
        }
        W::Unset => {
            s.db().delete_key(KEY).map_err(es)?;
        }
        W::Query => {
            s.db().view::<super::world::ByV>().query().map_err(es)?;
            s.db().view::<super::c21::SecretText>().query().map_err(es)?;
        }
        W::CompactAll => compact(s.db(), A::All)?,
        W::CompactSecret => compact(s.db(), A::Coll(true))?,
        W::CompactKeys => compact(s.db(), A::Keys)?,
        W::Reopen => s.reopen()?,
    }
    Ok(())
}
fn words(c: Conf) -> Vec<&'static str> {
    let mut w = vec![SECRET, SECRET_TAG];
    if c.key {
        w.extend([PLAIN, PLAIN_TAG, KEY, VALUE, USER]);
    }
    w
}

#[derive(Debug)]
enum J {
    /// sequences that begin with this
    Seq(Conf, W, usize),
    /// the settings change between runs
    Change(Conf, Conf),
    Keys(Conf),
    Contents(Conf),
}
fn sequences(c: Conf, first: W, depth: usize, acc: &mut Acc) {
    let mut todo = vec![vec![first]];
    while let Some(q) = todo.pop() {
        if q.len() < depth {
            todo.extend(VOCAB.iter().filter(|w| q.last() != Some(w) || **w != W::Reopen).map(|w| [&q[..], &[*w]].concat()));
            continue;
        }
        let name = format!("{c:?}: {q:?}");
        acc.at(&name);
        let d = dir();
        let r = engine::no_panic(|| -> Result<(), String> {
            let mut s = Sys::open(conf(c, &d, "keys")?)?;
            bonsaidb_core::connection::StorageConnection::create_user(s.s.as_ref().unwrap(), USER).map_err(es)?;
            for w in &q {
                act(&mut s, *w).map_err(|e| format!("{w:?}: {e}"))?;
                acc.count("transitions", 1);
            }
            super::c21::settle();
            let seen = observe(s.db(), true)?;
            scan(&d.join("db"), &words(c))?;
            s.reopen()?;
            scan(&d.join("db"), &words(c))?;
            if observe(s.db(), true)? != seen {
                return Err("something changed when it was opened again".into());
            }
            acc.outcome(&seq::h(&format!("{seen:?}")));
            Ok(())
        });
        acc.count("sequences", 1);
        match r {
            Ok(Ok(())) => acc.sample(json!({"sequence": name})),
            Ok(Err(e)) | Err(e) => acc.bad(format!("{name}: {e}"), json!({"sequence": name})),
        }
        let _ = std::fs::remove_dir_all(&d);
    }
}

pub fn run() -> i32 {
    let mut r = Report::new("C22", "model_checking");
    let mut jobs = vec![];
    for c in CONFS {
        for w in VOCAB {
            jobs.push(J::Seq(c, w, r.pick(3, 4)));
        }
        jobs.extend([J::Keys(c), J::Contents(c)]);
        for d in CONFS {
            jobs.push(J::Change(c, d));
        }
    }
    seq::run(&mut r, Mode::Controlled, jobs, |j, acc| match *j {
        J::Seq(c, w, d) => sequences(c, w, d, acc),
        J::Keys(c) => {
            for what in ["other", "none", "wrong", "damaged", "swapped"] {
                let name = format!("{c:?} opened with {what} key");
                acc.at(&name);
                acc.count("sequences", 1);
                if let Err(e) = engine::no_panic(|| keys(c, what)).unwrap_or_else(|e| Err(format!("panicked: {e}"))) {
                    acc.bad(format!("{name}: {e}"), json!({"keys": name}));
                }
            }
        }
        J::Contents(c) => {
            acc.at(&format!("{c:?}: contents"));
            match engine::no_panic(|| contents(c)).unwrap_or_else(|e| Err(format!("panicked: {e}"))) {
                Ok(n) => acc.count("sequences", n),
                Err(e) => acc.bad(format!("{c:?}: {e}"), json!({"contents": e})),
            }
        }
        J::Change(a, b) => {
            // going back to neither of the settings is not supported
            let ok = |a: Conf, b: Conf| !(a.key || a.lz4) || b.key || b.lz4;
            for c in CONFS.into_iter().filter(|c| ok(a, b) && ok(b, *c)) {
                for compacting in [false, true] {
                    let name = format!("settings {a:?}, {b:?}, {c:?}, compacting {compacting}");
                    acc.at(&name);
                    acc.count("sequences", 1);
                    if let Err(e) = engine::no_panic(|| change(&[a, b, c], compacting)).unwrap_or_else(|e| Err(format!("panicked: {e}"))) {
                        acc.bad(format!("{name}: {e}"), json!({"settings": name}));
                    }
                }
            }
        }
    });
    r.finish()
}

/// Without the key that the storage was created with, nothing opens.
fn keys(c: Conf, what: &str) -> Result<(), String> {
    let d = dir();
    let c1 = conf(c, &d, "keys")?;
    let mut s = Sys::open(c1)?;
    act(&mut s, W::Secret(1))?;
    let seen = observe(s.db(), true)?;
    drop(s);
    let find = |d: &Path| -> Result<PathBuf, String> {
        let mut files = vec![];
        bytes(&d.join("keys"), &mut files);
        let [(key, _)] = &files[..] else { return Err(format!("{} keys", files.len())) };
        Ok(key.clone())
    };
    let key = find(&d)?;
    // another storage with a key of its own
    let d2 = dir();
    drop(Sys::open(conf(c, &d2, "keys")?)?);
    let original = std::fs::read(&key).map_err(es)?;
    let master = d.join("db/master-keys");
    let sealed = std::fs::read(&master).map_err(es)?;
    let mut keys = "keys";
    match what {
        "other" => keys = "elsewhere",
        "none" => std::fs::remove_file(&key).map_err(es)?,
        "wrong" => std::fs::write(&key, std::fs::read(find(&d2)?).map_err(es)?).map_err(es)?,
        "swapped" => std::fs::write(&master, std::fs::read(d2.join("db/master-keys")).map_err(es)?).map_err(es)?,
        _ => {}
    }
    let attempt = |keys: &str| -> Result<bool, String> {
        let c = conf(c, &d, keys)?.with_schema::<Vaulted>().map_err(es)?;
        let r = engine::no_panic(|| bonsaidb_local::Storage::open(c).map(drop).map_err(es));
        match r {
            Ok(r) => Ok(r.is_ok()),
            Err(e) => Err(format!("panicked: {e}")),
        }
    };
    if what == "damaged" {
        for (file, good) in [(&key, &original), (&master, &sealed)] {
            for i in 0..good.len() {
                let mut bad = good.clone();
                bad[i] ^= 0x41;
                std::fs::write(file, &bad).map_err(es)?;
                // a different encoding of the same key is possible
                attempt(keys).map_err(|e| format!("byte {i} of {}: {e}", file.strip_prefix(&d).unwrap().display()))?;
                std::fs::write(file, &good[..i]).map_err(es)?;
                if attempt(keys).map_err(|e| format!("{} cut to {i}: {e}", file.strip_prefix(&d).unwrap().display()))? {
                    return Err(format!("opened with {} bytes of {}", i, file.strip_prefix(&d).unwrap().display()));
                }
            }
            std::fs::write(file, good).map_err(es)?;
        }
    } else if attempt(keys)? {
        return Err("the storage opened".into());
    }
    // nothing is lost by trying
    std::fs::write(&key, original).map_err(es)?;
    std::fs::write(&master, sealed).map_err(es)?;
    let s = Sys::open(conf(c, &d, "keys")?)?;
    if observe(s.db(), true)? != seen {
        return Err("something changed".into());
    }
    Ok(())
}

/// Documents hold what was written to them even if it looks like something
/// that was encrypted or compressed.
fn contents(c: Conf) -> Result<u64, String> {
    let d = dir();
    let mut s = Sys::open(conf(c, &d, "keys")?)?;
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    // the marks used for encrypted and compressed data, and beginnings of them
    for n in 0..=255u8 {
        for tail in [&b""[..], b"x", b"\0\0\0\0", b"\x04\0\0\0abcd"] {
            all.push([b"trv", &[n][..], tail].concat());
        }
    }
    all.extend([b"t".to_vec(), b"tr".to_vec(), b"trv".to_vec(), b"trvtrv\x80".to_vec()]);
    // what was once written without a mark
    #[derive(serde::Serialize)]
    enum Encryption {
        XChaCha20Poly1305,
    }
    #[derive(serde::Serialize)]
    struct VaultPayload<'a> {
        key_id: bonsaidb_core::document::KeyId,
        key_version: u32,
        encryption: Encryption,
        payload: &'a [u8],
        nonce: &'a [u8],
    }
    for payload in [&b""[..], b"1234567890123456", &[7; 200]] {
        let p = VaultPayload { key_id: bonsaidb_core::document::KeyId::Master, key_version: 0, encryption: Encryption::XChaCha20Poly1305, payload, nonce: &[1; 24] };
        // the same in bincode
        for key in [0u32, 1, 2] {
            let mut b = vec![];
            b.extend(key.to_le_bytes());
            if key == 2 {
                b.extend(1u64.to_le_bytes());
                b.push(b'x');
            }
            b.extend([0; 8]);
            for bytes in [payload, &[1; 24]] {
                b.extend((bytes.len() as u64).to_le_bytes());
                b.extend(bytes);
            }
            all.push(b);
        }
        all.push(world::pot(&p));
    }
    // short and long
    for n in 0..all.len() {
        if n % 7 == 0 {
            let mut long = all[n].clone();
            long.extend([b'y'; 200]);
            all.push(long);
        }
    }
    let mut tx = bonsaidb_core::transaction::Transaction::new();
    for (i, v) in all.iter().enumerate() {
        tx.push(bonsaidb_core::transaction::Operation::insert(Raw::collection_name(), Some(bonsaidb_core::document::DocumentId::from_u64(i as u64)), v.clone()));
    }
    tx.apply(s.db()).map_err(es)?;
    for turn in ["", " after compacting", " after opening it again"] {
        match turn {
            "" => {}
            " after compacting" => compact(s.db(), A::All)?,
            _ => s.reopen()?,
        }
        for (i, v) in all.iter().enumerate() {
            let got = s.db().collection::<Raw>().get(&(i as u64)).map_err(|e| format!("a document with {:?} cannot be read{turn}: {e}", String::from_utf8_lossy(&v[..v.len().min(30)])))?;
            if got.as_ref().map(|g| &g.contents[..]) != Some(&v[..]) {
                return Err(format!("a document with {:?} holds {:?}{turn}", String::from_utf8_lossy(&v[..v.len().min(30)]), got.map(|g| String::from_utf8_lossy(&g.contents).to_string())));
            }
        }
    }
    Ok(all.len() as u64)
}

/// Opens a storage with different settings, one after another.
fn change(cs: &[Conf], compacting: bool) -> Result<(), String> {
    let d = dir();
    let mut s = Sys::open(conf(cs[0], &d, "keys")?)?;
    let mut m = Model::default();
    for (n, c) in cs.iter().enumerate() {
        if n > 0 {
            s.conf = conf(*c, &d, "keys")?;
            s.reopen().map_err(|e| format!("opening with settings {n}: {e}"))?;
            s.m.check(&observe(s.db(), true).map_err(|e| format!("with settings {n}: {e}"))?).map_err(|e| format!("with settings {n}: {e}"))?;
        }
        for a in [A::Put(false, 10 * n as u64), A::Put(true, 10 * n as u64), A::Put(false, 1), A::Put(true, 2), A::Set, A::Query] {
            s.act(a).map_err(|e| format!("with settings {n}: {a:?}: {e}"))?;
        }
        if compacting {
            s.act(A::All).map_err(|e| format!("with settings {n}: {e}"))?;
        }
        super::c21::settle();
        s.m.check(&observe(s.db(), true)?).map_err(|e| format!("with settings {n}: {e}"))?;
        m = s.m.clone();
    }
    let _ = m;
    s.reopen()?;
    s.m.check(&observe(s.db(), true)?)
}
