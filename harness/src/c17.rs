//! C17: file words behave like the file system they wrap. An in-memory file system with inodes and
//! open-file descriptions is run beside the machine; the files on disk are compared with it too.
use crate::ensure;
use crate::util::*;
use crate::vmx::*;
use rtforth::core::Core;
use rtforth::memory::Memory;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

type Inode = Rc<RefCell<Vec<u8>>>;
struct H {
    ino: Inode,
    pos: u64,
    r: bool,
    w: bool,
}
struct Fs {
    names: BTreeMap<String, Inode>,
    /// Names that exist but may not be opened for writing.
    ro: Vec<String>,
    open: BTreeMap<i64, H>,
    closed: Vec<i64>,
}
const BUF: usize = 6000;

struct Ctx<'a> {
    m: M,
    dbuf: usize,
    pbuf: usize,
    rng: &'a mut Rng,
    uid: u64,
}
impl<'a> Ctx<'a> {
    /// Evaluate; the result cells above a marker value.
    fn eval(&mut self, src: &str, n: usize) -> Result<Vec<i64>, Fail> {
        let compiled = self.rng.chance(1, 8) && self.m.limit() - self.m.here() > 3000;
        let e = if compiled {
            self.uid += 1;
            let d = format!(": w{} {} ; 4242 w{}", self.uid, src, self.uid);
            self.m.line(&d)
        } else {
            self.m.line(&format!("4242 {}", src))
        };
        self.m.out();
        let s = self.m.s();
        if e != 0 || s.len() != n + 1 || s[0] != 4242 {
            return fail(
                if e != 0 { "a file word raised an exception" } else { "a file word left the wrong number of results" },
                format!("`{}`: error {} stack {:?}", src, e, s),
            );
        }
        self.m.clear_s();
        Ok(s[1..].to_vec())
    }
    fn put(&mut self, addr: usize, b: &[u8]) {
        for (i, x) in b.iter().enumerate() {
            unsafe { self.m.vm.data_space().put_u8(*x, addr + i) }
        }
    }
    /// The operands naming a file.
    fn path(&mut self, p: &str) -> String {
        let p = p.as_bytes().to_vec();
        let a = self.pbuf;
        self.put(a, &p);
        // What follows the name must not matter.
        self.put(a + p.len(), b"zz");
        format!("pbuf {}", p.len())
    }
}

fn bad_id(rng: &mut Rng, fs: &Fs) -> i64 {
    loop {
        let x = match rng.below(8) {
            0 => 0,
            1 => -1,
            2 => i64::MAX,
            3 => i64::MIN,
            4 => 1000,
            5 if !fs.closed.is_empty() => *rng.pick(&fs.closed),
            6 => fs.open.keys().last().map_or(1, |x| x + 1),
            _ => rng.cell(),
        };
        if !fs.open.contains_key(&x) {
            return x;
        }
    }
}
fn len(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => *rng.pick(&[255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097]),
        3 => rng.us(BUF),
        _ => rng.us(200),
    }
}

pub fn case(cx: &mut Cx, idx: u64) -> R {
    let mut rng = cx.rng(idx);
    let dir = format!("{}/fs{}", cx.scratch, idx);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| Fail { sig: "io".into(), msg: e.to_string() })?;
    let r = history(cx, &mut rng, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn history(cx: &mut Cx, rng: &mut Rng, dir: &str) -> R {
    let mut m = M::new();
    let e = m.line("create pbuf 400 allot create dbuf 6100 allot");
    ensure!(e == 0, "setup failed", "{}", e);
    let pbuf = m.val("pbuf")? as usize;
    let dbuf = m.val("dbuf")? as usize;
    let steps = if cx.small { 40 } else { 120 };
    let mut c = Ctx { m, dbuf, pbuf, rng, uid: 0 };
    let mut fs = Fs {
        names: BTreeMap::new(),
        ro: vec![],
        open: BTreeMap::new(),
        closed: vec![],
    };
    let names: Vec<String> = ["a", "b", "é中", "d.txt", "a b", "-x", "A"].iter().map(|x| x.to_string()).collect();
    let mut names = names;
    // names near the others that a path must not be mistaken for
    let odd = ["a ", " a", "b\t", "a.", "\u{3000}", "e\u{301}", "\u{e9}", "a\\b", "%61", "~", "$HOME", "*", "a\nb", "\"a\"", "a\u{200b}", "A ", ".a", "..a", "\u{feff}a"];
    for _ in 0..c.rng.us(6) {
        let n = if c.rng.chance(1, 8) { "n".repeat(c.rng.range(100, 160) as usize) } else { c.rng.pick(&odd).to_string() };
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let names = names;
    let root = unsafe { libc::geteuid() } == 0;
    // Files that exist beforehand.
    for n in &names {
        if c.rng.chance(1, 4) {
            let k = len(c.rng);
            let b: Vec<u8> = (0..k).map(|_| c.rng.below(256) as u8).collect();
            std::fs::write(format!("{}/{}", dir, n), &b).unwrap();
            fs.names.insert(n.clone(), Rc::new(RefCell::new(b)));
            if c.rng.chance(1, 6) && !root {
                use std::os::unix::fs::PermissionsExt;
                std::fs::set_permissions(format!("{}/{}", dir, n), std::fs::Permissions::from_mode(0o444)).unwrap();
                fs.ro.push(n.clone());
            }
        }
    }
    let _ = std::fs::create_dir(format!("{}/sub", dir));
    let mut hist = 0u64;
    for _ in 0..steps {
        let op = c.rng.below(27);
        hist = mix(hist ^ op);
        match op {
            0..=4 => {
                // create or open
                let create = op == 0 || op == 1;
                let word = if create { "create-file" } else { "open-file" };
                let fam = *c.rng.pick(&[0i64, 1, 2, 2, 2, 1, 0, 3, -1, 77, i64::MIN]);
                let fams = match fam {
                    0 if c.rng.chance(1, 2) => "r/o".to_string(),
                    1 if c.rng.chance(1, 2) => "w/o".to_string(),
                    2 if c.rng.chance(1, 2) => "r/w bin".to_string(),
                    _ => fam.to_string(),
                };
                let (path, name) = pick_path(c.rng, dir, &names);
                let long = path.len() > 256;
                let (bad, ops) = if c.rng.chance(1, 25) {
                    // The name itself lies outside the data space.
                    (true, c.rng.pick(&["0 5", "-1 3", "dbuf 100000000", "dbuf -1", "1 0"]).to_string())
                } else {
                    (false, c.path(&path))
                };
                let r = c.eval(&format!("{} {} {}", ops, fams, word), 2)?;
                let (id, ior) = (r[0], r[1]);
                let exists = name.as_ref().map_or(false, |n| fs.names.contains_key(n));
                let writable = name.as_ref().map_or(true, |n| !fs.ro.contains(n));
                let want = !bad && name.is_some() && (if create { fam == 1 || fam == 2 } else { exists && (0..=2).contains(&fam) }) && (writable || fam == 0 && !create);
                if long && !want {
                } else if long {
                    // Longer than the supported path: refused with a code, or opened.
                    cx.count("long paths", 1);
                } else {
                    ensure!(
                        (ior == 0) == want,
                        "wrong result of opening a file",
                        "{} `{}` fam {}: ior {} but it must {}",
                        word, path, fam, ior, if want { "succeed" } else { "fail" }
                    );
                }
                if ior == 0 {
                    let name = match name {
                        Some(n) => n,
                        None => return fail("wrong result of opening a file", format!("{} `{}`", word, path)),
                    };
                    ensure!(id > 0 && !fs.open.contains_key(&id), "file identifier not fresh", "{} gave {} while open: {:?}", word, id, fs.open.keys().collect::<Vec<_>>());
                    let ino = fs.names.entry(name).or_insert_with(|| Rc::new(RefCell::new(vec![]))).clone();
                    if create {
                        ino.borrow_mut().clear();
                    }
                    fs.open.insert(id, H { ino, pos: 0, r: fam != 1, w: fam != 0 });
                    cx.count("files opened", 1);
                } else {
                    cx.count("failures reported", 1);
                }
            }
            5 => {
                if fs.open.len() > 3 || c.rng.chance(1, 3) {
                    let id = match any(c.rng, &fs) {
                        Some(id) => id,
                        None => continue,
                    };
                    let r = c.eval(&format!("{} close-file", id), 1)?;
                    ensure!(r[0] == 0, "closing an open file failed", "{} -> {}", id, r[0]);
                    fs.open.remove(&id);
                    fs.closed.push(id);
                    cx.count("files closed", 1);
                }
            }
            6 => {
                let (path, name) = pick_path(c.rng, dir, &names);
                let ops = c.path(&path);
                let r = c.eval(&format!("{} delete-file", ops), 1)?;
                let want = name.as_ref().map_or(false, |n| fs.names.contains_key(n));
                if path.len() <= 256 {
                    ensure!((r[0] == 0) == want, "wrong result of deleting a file", "`{}`: ior {} but it must {}", path, r[0], if want { "succeed" } else { "fail" });
                }
                if r[0] == 0 {
                    let n = name.unwrap();
                    fs.names.remove(&n);
                    fs.ro.retain(|x| *x != n);
                    cx.count("files deleted", 1);
                }
            }
            7..=10 => {
                let id = match any(c.rng, &fs) {
                    Some(id) => id,
                    None => continue,
                };
                let n = len(c.rng);
                let b: Vec<u8> = (0..n).map(|_| if c.rng.chance(1, 6) { *c.rng.pick(&[0u8, 10, 13, 255, 26, 4]) } else { c.rng.below(256) as u8 }).collect();
                let off = c.rng.us(8);
                let a = c.dbuf + off;
                c.put(a, &b);
                let r = c.eval(&format!("dbuf {} + {} {} write-file", off, n, id), 1)?;
                let h = fs.open.get_mut(&id).unwrap();
                if !h.w {
                    if n > 0 {
                        ensure!(r[0] != 0, "writing a read-only file succeeded", "{} bytes to {}", n, id);
                        cx.count("failures reported", 1);
                    }
                    continue;
                }
                ensure!(r[0] == 0, "writing failed", "{} bytes to {} -> {}", n, id, r[0]);
                let back = c.m.bytes(a, n);
                ensure!(back == b, "writing changed the memory", "{} bytes", n);
                let mut d = h.ino.borrow_mut();
                let p = h.pos as usize;
                if n > 0 {
                    if d.len() < p + n {
                        d.resize(p + n, 0);
                    }
                    d[p..p + n].copy_from_slice(&b);
                }
                h.pos += n as u64;
                cx.count("bytes written", n as u64);
            }
            11..=14 => {
                let id = match any(c.rng, &fs) {
                    Some(id) => id,
                    None => continue,
                };
                let n = len(c.rng);
                let a = c.dbuf;
                let junk: Vec<u8> = (0..BUF + 50).map(|i| (i * 7 + 3) as u8).collect();
                c.put(a, &junk);
                let off = c.rng.us(8);
                let r = c.eval(&format!("dbuf {} + {} {} read-file", off, n, id), 2)?;
                let h = fs.open.get_mut(&id).unwrap();
                let mut want = junk.clone();
                if !h.r {
                    if n > 0 {
                        ensure!(r[1] != 0, "reading a write-only file succeeded", "{} bytes from {}", n, id);
                        cx.count("failures reported", 1);
                    }
                } else {
                    let d = h.ino.borrow();
                    let p = (h.pos as usize).min(d.len());
                    let k = n.min(d.len() - p);
                    ensure!(
                        r == [k as i64, 0],
                        "reading returned the wrong count",
                        "{} bytes at {} of {} from {}: {:?}, must be {} 0",
                        n, h.pos, d.len(), id, r, k
                    );
                    want[off..off + k].copy_from_slice(&d[p..p + k]);
                    drop(d);
                    h.pos += k as u64;
                    cx.count("bytes read", k as u64);
                }
                let got = c.m.bytes(a, BUF + 50);
                if got != want {
                    let i = (0..got.len()).find(|i| got[*i] != want[*i]).unwrap();
                    return fail("bytes read differ", format!("{} bytes from {}: byte {} is {} must be {}", n, id, i as i64 - off as i64, got[i], want[i]));
                }
            }
            15 | 16 => {
                let id = match any(c.rng, &fs) {
                    Some(id) => id,
                    None => continue,
                };
                let size = fs.open[&id].ino.borrow().len() as i64;
                let p = match c.rng.below(6) {
                    0 => 0,
                    1 => size,
                    2 => size + c.rng.range(0, 300),
                    3 if size > 0 => size - 1,
                    _ => c.rng.range(0, size),
                };
                let r = c.eval(&format!("{} 0 {} reposition-file", p, id), 1)?;
                ensure!(r[0] == 0, "repositioning failed", "{} of {} -> {}", p, size, r[0]);
                fs.open.get_mut(&id).unwrap().pos = p as u64;
                cx.count("repositionings", 1);
            }
            17 => {
                let id = match any(c.rng, &fs) {
                    Some(id) => id,
                    None => continue,
                };
                let size = fs.open[&id].ino.borrow().len() as i64;
                let h = &fs.open[&id];
                if c.rng.chance(1, 6) {
                    // Enormous: the file system decides, but result and effect must agree.
                    let big = *c.rng.pick(&[i64::MAX, 1 << 62, (1 << 62) + 1]);
                    let r = c.eval(&format!("{} 0 {} resize-file", big, id), 1)?;
                    let q = c.eval(&format!("{} file-size", id), 3)?;
                    ensure!(
                        q[2] == 0 && q[0] == if r[0] == 0 && h.w { big } else { size },
                        "resizing result and effect disagree",
                        "to {}: ior {} then size {:?} (was {})",
                        big, r[0], q, size
                    );
                    if r[0] == 0 {
                        let r = c.eval(&format!("{} 0 {} resize-file", size, id), 1)?;
                        ensure!(r[0] == 0, "resizing failed", "back to {} -> {}", size, r[0]);
                    }
                    continue;
                }
                let n = match c.rng.below(5) {
                    0 => 0,
                    1 => size,
                    2 => size + c.rng.range(1, 5000),
                    _ => c.rng.range(0, size),
                };
                let r = c.eval(&format!("{} 0 {} resize-file", n, id), 1)?;
                if !h.w {
                    ensure!(r[0] != 0, "resizing a read-only file succeeded", "{} to {}", id, n);
                } else {
                    ensure!(r[0] == 0, "resizing failed", "{} to {} -> {}", id, n, r[0]);
                    h.ino.borrow_mut().resize(n as usize, 0);
                    cx.count("resizings", 1);
                }
            }
            18 | 19 => {
                let id = match any(c.rng, &fs) {
                    Some(id) => id,
                    None => continue,
                };
                let h = &fs.open[&id];
                let (size, pos) = (h.ino.borrow().len() as i64, h.pos as i64);
                let r = c.eval(&format!("{} file-size", id), 3)?;
                ensure!(r == [size, 0, 0], "file size differs", "{}: {:?} must be {}", id, r, size);
                let r = c.eval(&format!("{} file-position", id), 3)?;
                ensure!(r == [pos, 0, 0], "file position differs", "{}: {:?} must be {}", id, r, pos);
                cx.count("sizes and positions compared", 2);
            }
            20 | 21 => {
                // Invalid identifiers and operands: a code, no exception, nothing changed.
                let id = bad_id(c.rng, &fs);
                let (src, n) = match c.rng.below(7) {
                    0 => (format!("{} close-file", id), 1),
                    1 => (format!("dbuf 5 {} write-file", id), 1),
                    2 => (format!("dbuf 5 {} read-file", id), 2),
                    3 => (format!("{} file-size", id), 3),
                    4 => (format!("{} file-position", id), 3),
                    5 => (format!("0 0 {} resize-file", id), 1),
                    _ => (format!("0 0 {} reposition-file", id), 1),
                };
                let before = c.m.bytes(c.dbuf, BUF);
                let r = c.eval(&src, n)?;
                ensure!(r[n - 1] != 0, "invalid file identifier accepted", "`{}` -> {:?}", src, r);
                let after = c.m.bytes(c.dbuf, BUF);
                ensure!(before == after, "a refused operation changed memory", "`{}`", src);
                cx.count("invalid identifiers refused", 1);
            }
            22 => {
                let id = match any(c.rng, &fs) {
                    Some(id) => id,
                    None => continue,
                };
                let (src, n) = match c.rng.below(6) {
                    0 => (format!("0 5 {} write-file", id), 1),
                    1 => (format!("dbuf 10000000 {} write-file", id), 1),
                    2 => (format!("0 5 {} read-file", id), 2),
                    3 => (format!("dbuf -1 {} read-file", id), 2),
                    4 => (format!("{} 1 {} reposition-file", c.rng.range(0, 9), id), 1),
                    _ => (format!("-1 0 {} resize-file", id), 1),
                };
                let r = c.eval(&src, n)?;
                ensure!(r[n - 1] != 0, "invalid operands accepted", "`{}` -> {:?}", src, r);
                cx.count("failures reported", 1);
            }
            24 if c.rng.chance(1, 4) => pipe(cx, &mut c, &fs, dir)?,
            24 => far(cx, &mut c, &fs, dir)?,
            25 => faults(cx, &mut c, &mut fs, dir, &names)?,
            26 => directory(cx, &mut c, dir)?,
            _ => {
                // The disk agrees with the model.
                for n in &names {
                    let on = std::fs::read(format!("{}/{}", dir, n)).ok();
                    let want = fs.names.get(n).map(|i| i.borrow().clone());
                    if on != want {
                        return fail(
                            "file contents differ on disk",
                            format!("`{}`: {:?} bytes on disk, {:?} in the model", n, on.map(|x| x.len()), want.map(|x| x.len())),
                        );
                    }
                }
                cx.count("disk comparisons", names.len() as u64);
            }
        }
    }
    cx.distinct(hist);
    // Everything can be closed once, and only once.
    let ids: Vec<i64> = fs.open.keys().cloned().collect();
    for id in ids {
        let r = c.eval(&format!("{} close-file", id), 1)?;
        ensure!(r[0] == 0, "closing an open file failed", "{} -> {}", id, r[0]);
        let r = c.eval(&format!("{} close-file", id), 1)?;
        ensure!(r[0] != 0, "a file was closed twice", "{}", id);
    }
    Ok(())
}

/// The file system refuses: no room for a file to grow, or no descriptor left.
fn faults(cx: &mut Cx, c: &mut Ctx, fs: &mut Fs, dir: &str, names: &[String]) -> R {
    if c.rng.chance(1, 3) {
        // No descriptor left: the lowest free one lies beyond the limit.
        let free = match free_fd() {
            Some(f) => f,
            None => return Ok(()),
        };
        let n = c.rng.pick(names).clone();
        let path = format!("{}/{}", dir, n);
        if path.len() > 256 {
            return Ok(());
        }
        let ops = c.path(&path);
        let word = *c.rng.pick(&["open-file", "create-file"]);
        let fam = c.rng.range(0, 2);
        let lim = Limit::set(libc::RLIMIT_NOFILE, free);
        let r = c.eval(&format!("{} {} {}", ops, fam, word), 2);
        drop(lim);
        let r = r?;
        ensure!(r[1] != 0, "opening without a free descriptor succeeded", "`{}` {} -> {:?}", path, word, r);
        let on = std::fs::read(&path).ok();
        let want = fs.names.get(&n).map(|i| i.borrow().clone());
        ensure!(on == want, "a failed open changed the file", "`{}`: {:?} bytes on disk, {:?} in the model", n, on.map(|x| x.len()), want.map(|x| x.len()));
        cx.count("faults: no descriptor", 1);
        return Ok(());
    }
    let id = match any(c.rng, fs) {
        Some(id) => id,
        None => return Ok(()),
    };
    let h = fs.open.get_mut(&id).unwrap();
    let (p, size) = (h.pos, h.ino.borrow().len() as u64);
    if !h.w || p > 1 << 20 {
        return Ok(());
    }
    if c.rng.chance(1, 4) {
        // Growing by resize-file.
        let n = size + c.rng.range(1, 3000) as u64;
        let l = size + c.rng.below(n - size);
        let lim = Limit::set(libc::RLIMIT_FSIZE, l);
        let r = c.eval(&format!("{} 0 {} resize-file {} file-size {} file-position", n, id, id, id), 7);
        drop(lim);
        let r = r?;
        ensure!(
            r[0] != 0 && r[1..] == [size as i64, 0, 0, p as i64, 0, 0],
            "resizing beyond the file system's limit",
            "{} to {} with limit {}: {:?}", size, n, l, r
        );
        cx.count("faults: resize refused", 1);
        return Ok(());
    }
    let n = c.rng.range(1, 4000) as u64;
    let l = match c.rng.below(4) {
        0 => p,
        1 => p + n,
        _ => p + c.rng.below(n),
    };
    let b: Vec<u8> = (0..n).map(|_| c.rng.below(256) as u8).collect();
    let a = c.dbuf;
    c.put(a, &b);
    let lim = Limit::set(libc::RLIMIT_FSIZE, l);
    let r = c.eval(&format!("dbuf {} {} write-file {} file-position", n, id, id), 4);
    drop(lim);
    let r = r?;
    let room = l.saturating_sub(p).min(n);
    ensure!(
        (r[0] == 0) == (room == n),
        "a write that does not fit succeeded",
        "{} bytes at {} with limit {}: {:?}", n, p, l, r
    );
    ensure!(r[2..] == [0, 0], "file position differs", "{}: {:?}", id, r);
    // What the file system took before it refused is written and passed; nothing else is.
    let k = r[1] - p as i64;
    ensure!(
        if room == n { k == n as i64 } else { (0..=room as i64).contains(&k) },
        "file position differs",
        "{} bytes at {} with limit {}: {:?}", n, p, l, r
    );
    let (p, k) = (p as usize, k as usize);
    {
        let mut d = h.ino.borrow_mut();
        if k > 0 {
            if d.len() < p + k {
                d.resize(p + k, 0);
            }
            d[p..p + k].copy_from_slice(&b[..k]);
        }
    }
    h.pos = (p + k) as u64;
    cx.count(if room == n { "faults: write just fits" } else { "faults: write refused" }, 1);
    Ok(())
}

/// A directory is not an ordinary file.
fn directory(cx: &mut Cx, c: &mut Ctx, dir: &str) -> R {
    let sub = format!("{}/sub", dir);
    let ops = c.path(&sub);
    let r = c.eval(&format!("{} delete-file", ops), 1)?;
    ensure!(r[0] != 0 && std::path::Path::new(&sub).is_dir(), "a directory was deleted as a file", "{:?}", r);
    let fam = c.rng.range(1, 2);
    let word = *c.rng.pick(&["open-file", "create-file"]);
    let r = c.eval(&format!("{} {} {}", ops, fam, word), 2)?;
    ensure!(r[1] != 0, "a directory was opened for writing", "{} {:?}", word, r);
    let r = c.eval(&format!("{} 0 open-file", ops), 2)?;
    if r[1] == 0 {
        let id = r[0];
        let r = c.eval(&format!("dbuf 100 {} read-file", id), 2)?;
        ensure!(r[1] != 0, "reading a directory succeeded", "{:?}", r);
        let r = c.eval(&format!("dbuf 10 {} write-file {} close-file", id, id), 2)?;
        ensure!(r[0] != 0 && r[1] == 0, "writing a directory succeeded", "{:?}", r);
    }
    cx.count("operations on a directory", 1);
    Ok(())
}

/// Positions and sizes that need more than 32 bits, in a file of its own with a hole.
fn far(cx: &mut Cx, c: &mut Ctx, fs: &Fs, dir: &str) -> R {
    let p = match c.rng.below(5) {
        0 => (1i64 << 31) + c.rng.range(-9, 9),
        1 | 2 => (1i64 << 32) + c.rng.range(-9, 9),
        _ => (c.rng.range(0, 15) << 32) + (1 << 31) + c.rng.range(0, 0xffff_ffff),
    };
    let name = format!("{}/big", dir);
    // Can the file system do it at all?
    let can = {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(&name);
        f.and_then(|f| f.write_all_at(b"x", p as u64 + 9000).and_then(|_| f.set_len(0))).is_ok()
    };
    if !can {
        let _ = std::fs::remove_file(&name);
        return Ok(());
    }
    // An open file of the history may be taken far beyond its end and back.
    if let Some(id) = any(c.rng, fs) {
        let (pos, r) = (fs.open[&id].pos as i64, fs.open[&id].r);
        let q = c.eval(&format!("{} 0 {} reposition-file {} file-position", p, id, id), 4)?;
        ensure!(q == [0, p, 0, 0], "a position beyond 2 GiB is not kept", "{}: {:?}", p, q);
        if r {
            let q = c.eval(&format!("dbuf 5 {} read-file", id), 2)?;
            ensure!(q == [0, 0], "reading far beyond the end", "at {}: {:?}", p, q);
        }
        let q = c.eval(&format!("{} 0 {} reposition-file {} file-position", pos, id, id), 4)?;
        ensure!(q == [0, pos, 0, 0], "repositioning back", "{}: {:?}", pos, q);
    }
    let ops = c.path(&name);
    let r = c.eval(&format!("{} 2 create-file", ops), 2)?;
    ensure!(r[1] == 0, "wrong result of opening a file", "{}: {:?}", name, r);
    let id = r[0];
    let n = c.rng.range(1, 4000);
    let b: Vec<u8> = (0..n).map(|_| c.rng.range(1, 255) as u8).collect();
    let a = c.dbuf;
    c.put(a, &b);
    let r = c.eval(&format!("{} 0 {} reposition-file dbuf {} {} write-file {} file-position {} file-size", p, id, n, id, id, id), 8)?;
    ensure!(r == [0, 0, p + n, 0, 0, p + n, 0, 0], "writing beyond 2 GiB", "{} bytes at {}: {:?}", n, p, r);
    let k = c.rng.range(0, 9).min(p);
    c.put(a, &vec![0x77; n as usize + 100]);
    let r = c.eval(&format!("{} 0 {} reposition-file dbuf {} {} read-file {} file-position", p - k, id, n + 50, id, id), 6)?;
    ensure!(r == [0, n + k, 0, p + n, 0, 0], "reading beyond 2 GiB", "{} bytes at {}: {:?}", n, p - k, r);
    let got = c.m.bytes(a, n as usize + 60);
    let mut want = vec![0u8; k as usize];
    want.extend(&b);
    want.resize(n as usize + 60, 0x77);
    ensure!(got == want, "bytes beyond 2 GiB differ", "{} bytes at {}", n, p);
    // The beginning of the file is the hole.
    let r = c.eval(&format!("0 0 {} reposition-file dbuf 40 {} read-file", id, id), 3)?;
    ensure!(r == [0, 40, 0] && c.m.bytes(a, 40) == vec![0; 40], "bytes before a hole differ", "{}: {:?}", p, r);
    let z = (p + n + c.rng.range(-5000, 5000)).max(0);
    let r = c.eval(&format!("{} 0 {} resize-file {} file-size {} file-position", z, id, id, id), 7)?;
    ensure!(r == [0, z, 0, 0, 40, 0, 0], "resizing beyond 2 GiB", "to {}: {:?}", z, r);
    let on = std::fs::metadata(&name).map(|x| x.len()).unwrap_or(0);
    ensure!(on == z as u64, "file contents differ on disk", "size {} must be {}", on, z);
    let ops = c.path(&name);
    let r = c.eval(&format!("{} close-file {} delete-file", id, ops), 2)?;
    ensure!(r == [0, 0], "closing or deleting a big file failed", "{:?}", r);
    cx.count("positions beyond 2 GiB", 1);
    Ok(())
}

/// A file which cannot be positioned: a pipe with a name.
fn pipe(cx: &mut Cx, c: &mut Ctx, fs: &Fs, dir: &str) -> R {
    let name = format!("{}/pipe", dir);
    let path = std::ffi::CString::new(name.clone()).unwrap();
    if unsafe { libc::mkfifo(path.as_ptr(), 0o666) } != 0 {
        return Ok(());
    }
    let ops = c.path(&name);
    let r = c.eval(&format!("{} 2 open-file", ops), 2)?;
    ensure!(r[1] == 0 && r[0] > 0 && !fs.open.contains_key(&r[0]), "wrong result of opening a file", "a pipe: {:?}", r);
    let id = r[0];
    let a = c.dbuf;
    let mut data: std::collections::VecDeque<u8> = Default::default();
    for _ in 0..c.rng.range(2, 10) {
        match c.rng.below(6) {
            0 => {
                let n = c.rng.range(0, 500);
                let b: Vec<u8> = (0..n).map(|_| c.rng.below(256) as u8).collect();
                c.put(a, &b);
                let r = c.eval(&format!("dbuf {} {} write-file", n, id), 1)?;
                ensure!(r == [0], "writing to a pipe", "{} bytes: {:?}", n, r);
                data.extend(b);
            }
            1 if !data.is_empty() => {
                let n = c.rng.range(0, data.len() as i64);
                c.put(a, &vec![0x77; n as usize + 20]);
                let r = c.eval(&format!("dbuf {} {} read-file", n, id), 2)?;
                let mut b: Vec<u8> = data.drain(..n as usize).collect();
                b.extend([0x77; 20]);
                let got = c.m.bytes(a, n as usize + 20);
                ensure!(r == [n, 0] && got == b, "reading from a pipe", "{} bytes: {:?}", n, r);
            }
            2 => {
                let p = c.rng.range(0, 99);
                let r = c.eval(&format!("{} 0 {} reposition-file", p, id), 1)?;
                ensure!(r[0] != 0, "a pipe was positioned", "to {}", p);
            }
            3 => {
                let r = c.eval(&format!("{} file-position", id), 3)?;
                ensure!(r[2] != 0, "a pipe has a position", "{:?}", r);
            }
            4 => {
                let z = c.rng.range(0, 99);
                let r = c.eval(&format!("{} 0 {} resize-file", z, id), 1)?;
                ensure!(r[0] != 0, "a pipe was resized", "{:?}", r);
            }
            _ => {
                c.eval(&format!("{} file-size", id), 3)?;
            }
        }
    }
    let ops = c.path(&name);
    let r = c.eval(&format!("{} close-file {} delete-file {} 0 open-file", id, ops, ops), 4)?;
    ensure!(r[0] == 0 && r[1] == 0 && r[3] != 0, "closing or deleting a pipe failed", "{:?}", r);
    cx.count("pipes used", 1);
    Ok(())
}

fn any(rng: &mut Rng, fs: &Fs) -> Option<i64> {
    if fs.open.is_empty() {
        return None;
    }
    let k: Vec<i64> = fs.open.keys().cloned().collect();
    Some(*rng.pick(&k))
}

/// A path and the name of the ordinary file it denotes.
fn pick_path(rng: &mut Rng, dir: &str, names: &[String]) -> (String, Option<String>) {
    match rng.below(14) {
        0 => ("".into(), None),
        1 => (format!("{}/nosuchdir/a", dir), None),
        2 if rng.chance(1, 2) => (format!("{}/a\0", dir), None),
        2 => (format!("{}/a/b", dir), None),
        3 => {
            // Exactly at the supported length, or around it.
            let n = rng.pick(names).clone();
            let l = rng.range(250, 262) as usize;
            let mut p = format!("{}/", dir);
            while p.len() + 2 + n.len() <= l {
                p.push_str("./");
            }
            if p.len() + n.len() < l {
                p.push('/');
            }
            (format!("{}{}", p, n), Some(n))
        }
        _ => {
            let n = rng.pick(names).clone();
            (format!("{}/{}", dir, n), Some(n))
        }
    }
}
