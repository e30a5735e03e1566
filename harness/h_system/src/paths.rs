//! C16: path containment. The calls under test can overwrite and remove files, so they run in a
//! process of an unprivileged user whose only files are the ones in a scratch tree; the paths tried
//! with a changing call climb no further than the top of that tree.
use logicaffeine_system::fs::{NativeVfs, Vfs};
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use vh::{Rng, H};

const NOBODY: u32 = 65534;
const ENV: &str = "VH_C16_SCRATCH";

/// Starts this program again as the unprivileged user and passes its answer on.
pub fn supervise() -> ! {
    let scratch = std::env::temp_dir().join(format!("vh-c16-{}", std::process::id()));
    std::fs::create_dir(&scratch).expect("scratch");
    let exe = scratch.join("h_system");
    std::fs::copy(std::env::current_exe().expect("self"), &exe).expect("copy");
    std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).expect("mode");
    std::fs::set_permissions(&scratch, std::fs::Permissions::from_mode(0o755)).expect("mode");
    let top = scratch.join("t");
    std::fs::create_dir(&top).expect("tree");
    let root = std::fs::metadata("/proc/self").map(|m| std::os::unix::fs::MetadataExt::uid(&m) == 0).unwrap_or(false);
    let mut c = std::process::Command::new(&exe);
    c.args(std::env::args().skip(1)).env(ENV, &top).current_dir(&top);
    if root {
        std::os::unix::fs::chown(&top, Some(NOBODY), Some(NOBODY)).expect("owner");
        c.uid(NOBODY).gid(NOBODY);
    }
    let out = c.output();
    let _ = std::fs::remove_dir_all(&scratch);
    match out {
        Ok(o) => {
            use std::io::Write;
            let _ = std::io::stdout().write_all(&o.stdout);
            let _ = std::io::stderr().write_all(&o.stderr);
            std::process::exit(o.status.code().unwrap_or(3));
        }
        Err(e) => {
            eprintln!("cannot run as the unprivileged user: {e}");
            std::process::exit(3);
        }
    }
}

pub fn supervised() -> bool {
    std::env::var_os(ENV).is_some()
}

/// Everything below `dir`: relative name to kind and contents.
fn tree(dir: &Path) -> BTreeMap<String, String> {
    fn walk(dir: &Path, pre: &str, out: &mut BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let name = format!("{pre}{}", e.file_name().to_string_lossy());
            let Ok(m) = std::fs::symlink_metadata(e.path()) else { continue };
            if m.file_type().is_symlink() {
                out.insert(name, format!("link {:?}", std::fs::read_link(e.path())));
            } else if m.is_dir() {
                out.insert(name.clone(), "dir".into());
                walk(&e.path(), &format!("{name}/"), out);
            } else {
                out.insert(name, format!("file {}", String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default())));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, "", &mut out);
    out
}

/// The part of a tree that is not inside the root.
fn outside(t: &BTreeMap<String, String>) -> BTreeMap<String, String> {
    t.iter().filter(|(k, _)| !k.starts_with("l1/l2/l3/root/")).map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn build(top: &Path) {
    let _ = std::fs::remove_dir_all(top.join("l1"));
    let root = top.join("l1/l2/l3/root");
    std::fs::create_dir_all(root.join("sub/deep")).unwrap();
    for (p, c) in [("a", "A"), ("a.tmp", "AT"), ("sub/b", "B"), ("sub/deep/c", "C"), ("..a", "DA"), ("...", "DDD"), ("~", "TILDE"), ("é", "E"), ("sub/root", "R")] {
        std::fs::write(root.join(p), c).unwrap();
    }
    for (p, c) in [("l1/l2/l3/a", "secret a"), ("l1/l2/l3/root.tmp", "secret t"), ("l1/l2/l3/b", "secret b"), ("l1/l2/a", "secret a2"), ("l1/a", "secret a1"), ("l1/l2/l3/rooted", "secret r")] {
        std::fs::write(top.join(p), c).unwrap();
    }
    std::fs::create_dir_all(top.join("l1/l2/l3/root2/sub")).unwrap();
    std::fs::write(top.join("l1/l2/l3/root2/a"), "secret 2").unwrap();
    std::os::unix::fs::symlink(root, top.join("l1/l2/l3/link")).unwrap();
}

/// A path of at most `ups` parent steps.
fn path(r: &mut Rng, top: &Path, ups: usize) -> String {
    match r.us(12) {
        0 => return top.join(*r.pick(&["l1/a", "l1/l2/l3/b", "l1/l2/l3/root/a", "l1/l2/l3/root/sub/b"])).to_string_lossy().into_owned(),
        1 => return r.pick(&["", "/", ".", "..", "./", "../", "//", "/..", "/../", "a/..", "sub/../", "sub/deep/../..", "..//a", "/..//a", "././../b"]).to_string(),
        _ => {}
    }
    let n = 1 + r.us(6);
    let mut left = ups;
    let mut s = String::from(*r.pick(&["", "", "", "/", "//", "./", "/./"]));
    for i in 0..n {
        if i > 0 {
            s += *r.pick(&["/", "/", "/", "/", "//", "/./"]);
        }
        let k = r.us(10);
        if k < 4 && left > 0 {
            left -= 1;
            s += "..";
        } else {
            s += *r.pick(&["a", "b", "sub", "sub", "deep", "c", "..a", "...", "~", "é", "root", "root2", "rooted", "new", "n.x", "a.tmp", "x\0y", "..\\..", "%2e%2e"]);
        }
    }
    if r.chance(1, 8) {
        s += "/";
    }
    s
}

/// Where a path leads when taken as relative to the root, whether it climbs above it on the way,
/// and whether it has steps that only mean something when what they pass through exists.
fn meaning(p: &str, root: &Path) -> (PathBuf, bool, bool) {
    let mut at: Vec<&str> = Vec::new();
    let (mut above, mut missing) = (false, false);
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                let here: PathBuf = at.iter().collect();
                missing |= !root.join(here).is_dir();
                if at.pop().is_none() {
                    above = true;
                }
            }
            c => at.push(c),
        }
    }
    (at.iter().collect(), above, missing || (p.ends_with('/') && p.len() > 1) || p.ends_with("/."))
}

fn one(h: &mut H, rt: &logicaffeine_system::tokio::runtime::Runtime, top: &Path, dirty: &mut bool) {
    if *dirty {
        build(top);
        *dirty = false;
    }
    let root = top.join("l1/l2/l3/root");
    let base = match h.rng.us(8) {
        0 => top.join("l1/l2/l3/link"),
        1 => top.join("l1/l2/l3/root/"),
        2 => top.join("l1/l2/l3/../l3/./root"),
        3 => PathBuf::from("l1/l2/l3/root"),
        _ => root.clone(),
    };
    let vfs = NativeVfs::new(&base);
    let op = *h.rng.pick(&["read", "read_to_string", "exists", "list_dir", "write", "append", "remove", "create_dir_all", "rename"]);
    let changing = !matches!(op, "read" | "read_to_string" | "exists" | "list_dir");
    let p = path(&mut h.rng, top, if changing { 3 } else { 9 });
    let q = path(&mut h.rng, top, 3);
    let case = format!("root {base:?} {op}({p:?}{})", if op == "rename" { format!(", {q:?}") } else { String::new() });
    let (to, above, vague) = meaning(&p, &root);
    h.case(&case, p.contains("..") || p.starts_with('/') || p.contains("//"));
    let before = tree(top);
    let full = root.join(&to);
    let key = to.to_string_lossy().into_owned();
    let inside = |t: &BTreeMap<String, String>, k: &str| t.get(&format!("l1/l2/l3/root/{k}")).cloned();
    let was = inside(&before, &key);
    *dirty = changing;
    let plain = !above && !vague && !p.contains('\0') && !key.is_empty();
    let c = case.clone();
    let got: Option<Result<String, String>> = h.guard("vfs", || c.clone(), || {
        rt.block_on(async {
            match op {
                "read" => vfs.read(&p).await.map(|b| String::from_utf8_lossy(&b).into_owned()),
                "read_to_string" => vfs.read_to_string(&p).await,
                "exists" => vfs.exists(&p).await.map(|b| b.to_string()),
                "list_dir" => vfs.list_dir(&p).await.map(|l| {
                    let mut v: Vec<String> = l.into_iter().map(|e| format!("{}:{}", e.name, e.is_directory)).collect();
                    v.sort();
                    v.join(",")
                }),
                "write" => vfs.write(&p, b"written").await.map(|_| String::new()),
                "append" => vfs.append(&p, b"more").await.map(|_| String::new()),
                "remove" => vfs.remove(&p).await.map(|_| String::new()),
                "create_dir_all" => vfs.create_dir_all(&p).await.map(|_| String::new()),
                _ => vfs.rename(&p, &q).await.map(|_| String::new()),
            }
        })
        .map_err(|e| e.to_string())
    });
    let Some(got) = got else { return };
    let after = tree(top);
    let (o1, o2) = (outside(&before), outside(&after));
    let diff: Vec<String> = o1.iter().filter(|(k, v)| o2.get(*k) != Some(v)).map(|(k, _)| k.clone()).chain(o2.keys().filter(|k| !o1.contains_key(*k)).cloned()).collect();
    if !h.check(diff.is_empty(), "changed-outside", || format!("changed outside the root: {diff:?}"), || case.clone()) {
        *dirty = true;
        return;
    }
    if !changing {
        h.check(before == after, "read-changes", || "a reading call changed files".into(), || case.clone());
    }
    if let Ok(s) = &got {
        if !h.check(!s.contains("secret"), "read-outside", || format!("contents from outside the root: {s:?}"), || case.clone()) {
            return;
        }
    }
    let ok = got.is_ok();
    match op {
        "read" | "read_to_string" => {
            if plain {
                let want = was.as_deref().and_then(|w| w.strip_prefix("file "));
                h.check(got.as_deref().ok() == want, "read-inside", || format!("got {got:?}, the file has {want:?}"), || case.clone());
            } else if let Ok(s) = &got {
                let all: Vec<&str> = before.iter().filter(|(k, _)| k.starts_with("l1/l2/l3/root/")).filter_map(|(_, v)| v.strip_prefix("file ")).collect();
                h.check(all.contains(&s.as_str()), "read-outside", || format!("read {s:?}, which no file in the root has"), || case.clone());
            }
        }
        "exists" => {
            if plain {
                h.check(got.as_deref() == Ok(if full.exists() { "true" } else { "false" }), "exists-inside", || format!("got {got:?}"), || case.clone());
            } else if above && !vague {
                // Something that only exists outside must not be seen.
                let any = before.keys().any(|k| k.starts_with("l1/l2/l3/root/") && k.ends_with(p.rsplit('/').next().unwrap_or("")));
                h.check(any || key.is_empty() || got.as_deref() != Ok("true"), "exists-outside", || "a path that leads outside is reported to exist".into(), || case.clone());
            }
        }
        "list_dir" => {
            if let Ok(s) = &got {
                let mut dirs = vec![root.clone()];
                for (k, v) in &before {
                    if k.starts_with("l1/l2/l3/root/") && v == "dir" {
                        dirs.push(top.join(k));
                    }
                }
                let ls = |d: &Path| {
                    let mut v: Vec<String> = std::fs::read_dir(d).unwrap().flatten().map(|e| format!("{}:{}", e.file_name().to_string_lossy(), e.path().is_dir())).collect();
                    v.sort();
                    v.join(",")
                };
                if plain {
                    h.check(full.is_dir() && ls(&full) == *s, "list-inside", || format!("got {s:?}"), || case.clone());
                } else {
                    h.check(dirs.iter().any(|d| ls(d) == *s), "list-outside", || format!("listed {s:?}, which is no directory in the root"), || case.clone());
                }
            } else if plain {
                h.check(!full.is_dir(), "list-inside", || format!("a directory cannot be listed: {got:?}"), || case.clone());
            }
        }
        _ if plain && (op != "rename" || { let (_, a, v) = meaning(&q, &root); !a && !v && !q.contains('\0') }) => {
            let mut want = before.clone();
            let pre = "l1/l2/l3/root/";
            let parents = |want: &mut BTreeMap<String, String>, k: &str| -> bool {
                let mut done = String::new();
                let parts: Vec<&str> = k.split('/').collect();
                for x in &parts[..parts.len() - 1] {
                    done = if done.is_empty() { x.to_string() } else { format!("{done}/{x}") };
                    match want.get(&format!("{pre}{done}")).map(|s| s.as_str()) {
                        None => { want.insert(format!("{pre}{done}"), "dir".into()); }
                        Some("dir") => {}
                        _ => return false,
                    }
                }
                true
            };
            let expect = match op {
                "write" => parents(&mut want, &key) && was.as_deref() != Some("dir") && { want.insert(format!("{pre}{key}"), "file written".into()); true },
                "append" => parents(&mut want, &key) && was.as_deref() != Some("dir") && { want.insert(format!("{pre}{key}"), format!("{}more", was.clone().unwrap_or("file ".into()))); true },
                "remove" => matches!(was.as_deref(), Some(w) if w != "dir") && { want.remove(&format!("{pre}{key}")); true },
                "create_dir_all" => parents(&mut want, &format!("{key}/x")),
                _ => {
                    let (to2, _, _) = meaning(&q, &root);
                    let k2 = to2.to_string_lossy().into_owned();
                    let target = inside(&before, &k2);
                    let par = root.join(&to2).parent().map_or(false, |d| d.is_dir());
                    // Only the plain case of moving a file is spelled out.
                    if matches!(was.as_deref(), Some(w) if w != "dir") && target.as_deref() != Some("dir") && par && !k2.is_empty() {
                        let v = want.remove(&format!("{pre}{key}")).unwrap();
                        want.insert(format!("{pre}{k2}"), v);
                        true
                    } else {
                        return;
                    }
                }
            };
            if expect {
                h.check(ok && after == want, "change-inside", || {
                    let d: Vec<String> = want.iter().filter(|(k, v)| after.get(*k) != Some(v)).map(|(k, _)| k.clone()).chain(after.keys().filter(|k| !want.contains_key(*k)).cloned()).collect();
                    format!("result {got:?}; differs from the named change at {d:?}")
                }, || case.clone());
            } else {
                h.check(!ok, "change-inside", || "a change that is impossible is reported as done".into(), || case.clone());
            }
        }
        _ => {}
    }
}

pub fn c16(h: &mut H) {
    let top = PathBuf::from(std::env::var_os(ENV).expect("supervised"));
    let rt = logicaffeine_system::tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    build(&top);
    let mut dirty = false;
    h.rounds("path strings", 12.0, 12_000, |h| one(h, &rt, &top, &mut dirty));
}
