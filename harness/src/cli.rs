//! Judges that run the real binary (C12, C13, C14) in scratch directories.
use crate::case::*;
use crate::judge::*;
use crate::reffoundry::*;
use bulloak_foundry::config::Config;
use bulloak_foundry::hir::translate;
use bulloak_foundry::scaffold::scaffold;
use solang_parser::pt::{self, ContractPart, ContractTy, Loc, SourceUnitPart};
use std::collections::BTreeMap;
use std::io::Read;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Run {
    /// `None` when killed by a signal or by the time limit.
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for c in it.by_ref() {
                if c == 'm' {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// A replacement character in a path stands for a byte that is not UTF-8.
fn raw(s: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = vec![];
    for c in s.chars() {
        match c {
            '\u{FFFD}' => v.push(0xff),
            c => v.extend(c.to_string().into_bytes()),
        }
    }
    std::ffi::OsString::from_vec(v)
}

pub fn run_bin(dir: &Path, args: &[String]) -> Run {
    let bin = std::env::var("VH_BIN").expect("VH_BIN");
    let mut c = Command::new(bin)
        .args(args.iter().map(|a| raw(a)))
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn bulloak");
    let (mut so, mut se) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let ho = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let he = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    let code = loop {
        match c.try_wait().unwrap() {
            Some(s) => break s.code(),
            None if t0.elapsed() > Duration::from_secs(30) => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_micros(500)),
        }
    };
    let f = |v: Vec<u8>| strip(&String::from_utf8_lossy(&v));
    Run { code, out: f(ho.join().unwrap()), err: f(he.join().unwrap()) }
}

type Snap = BTreeMap<String, Option<Vec<u8>>>;
fn snapshot(d: &Path) -> Snap {
    fn walk(d: &Path, pre: &str, out: &mut Snap) {
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            out.insert(n.clone(), std::fs::read(e.path()).ok());
            if e.path().is_dir() {
                walk(&e.path(), &format!("{n}/"), out);
            }
        }
    }
    let mut out = Snap::default();
    walk(d, "", &mut out);
    out
}

fn put(path: &Path, c: &Content) {
    let path = Path::new(&raw(path.to_str().unwrap())).to_owned();
    let path = path.as_path();
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    match c {
        Content::Missing => {}
        Content::Text(t) => std::fs::write(path, t).unwrap(),
        Content::Binary => std::fs::write(path, [0xff, 0xfe, 0x00, 0xc3]).unwrap(),
        Content::Dir => std::fs::create_dir_all(path).unwrap(),
    }
}

fn names(v: &[(String, Option<Vec<u8>>)]) -> Vec<&str> {
    v.iter().map(|x| x.0.as_str()).collect()
}
fn changed(a: &Snap, b: &Snap) -> Vec<(String, Option<Vec<u8>>)> {
    let mut o = vec![];
    for (k, v) in b {
        if a.get(k) != Some(v) {
            o.push((k.clone(), v.clone()));
        }
    }
    for k in a.keys() {
        if !b.contains_key(k) {
            o.push((format!("{k} (removed)"), None));
        }
    }
    o
}

/// Violations the statement of C11 expects for one file of a batch.
/// `None`: not decided (the library itself panics).
fn file_violations(f: &FileSpec, no_mods: bool) -> Option<usize> {
    let Content::Text(text) = &f.tree else { return Some(1) };
    let h = match guarded(|| translate(text, &Config::default())) {
        Err(_) => return None,
        Ok(Err(_)) => return Some(1),
        Ok(Ok(h)) => h,
    };
    let Content::Text(src) = &f.sol else { return Some(1) };
    let p = plan_pub(&h).ok()?;
    match expected_violations(&p, src, no_mods, "t", "s") {
        None => Some(1),
        Some(v) => Some(v.len()),
    }
}

fn formatted(text: &str, cfg: &Config) -> Option<Result<String, String>> {
    match guarded(|| scaffold(text, cfg)) {
        Err(_) => None,
        Ok(Err(e)) => Some(Err(e.to_string())),
        Ok(Ok(o)) => Some(Ok(forge_fmt::fmt(&o).unwrap_or(o))),
    }
}

fn invocation(prop: &str, cmd: &str, flags: &[String], files: &[FileSpec]) -> R {
    let d = Scratch::new();
    for f in files {
        let path = d.0.join(f.path());
        if f.link && matches!(f.tree, Content::Text(_)) && !f.stem.contains('\u{FFFD}') && !path.exists() {
            let n = std::fs::read_dir(d.0.join("elsewhere")).map_or(0, |x| x.count());
            let real = d.0.join(format!("elsewhere/source{n}.tree"));
            put(&real, &f.tree);
            put(&path, &Content::Missing);
            std::os::unix::fs::symlink(&real, &path).unwrap();
        } else {
            put(&path, &f.tree);
        }
        put(&d.0.join(format!("{}.t.sol", f.stem)), &f.sol);
    }
    std::fs::create_dir_all(d.0.join("up")).unwrap();
    let before = snapshot(&d.0);
    let mut args = vec![cmd.to_owned()];
    args.extend(flags.iter().cloned());
    args.extend(files.iter().map(|f| match f.prefix.as_str() {
        "/" => d.0.join(f.path()).to_string_lossy().into_owned(),
        p => format!("{p}{}", f.path()),
    }));
    let has = |x: &str| flags.iter().any(|f| f == x);
    let r = run_bin(&d.0, &args);
    let after = snapshot(&d.0);
    let ch = changed(&before, &after);
    let (c13, c14) = (prop == "C13", prop == "C14");
    if r.code.is_none() || r.code == Some(101) {
        return Err(format!("crashed: exit {:?}, stderr {:?}", r.code, tail(&r.err)));
    }
    // Nothing but `.t.sol` files of the given trees may change.
    if let Some((n, _)) = ch.iter().find(|(n, _)| !files.iter().any(|f| *n == format!("{}.t.sol", f.stem))) {
        return Err(format!("`{n}` was created, changed or removed"));
    }
    if cmd == "scaffold" {
        let (w, force) = (has("-w"), has("-f"));
        let mut cfg = Config::default();
        cfg.emit_vm_skip = has("-S");
        cfg.skip_modifiers = has("-m");
        if let Some(i) = flags.iter().position(|f| f == "-s") {
            cfg.solidity_version = flags[i + 1].clone();
        }
        if !w && !ch.is_empty() {
            return Err(format!("scaffold without -w changed {:?}", names(&ch)));
        }
        let mut errors = 0;
        let mut stdout = String::new();
        for f in files {
            let sol = format!("{}.t.sol", f.stem);
            let path = f.path();
            let res = match &f.tree {
                Content::Text(t) => match formatted(t, &cfg) {
                    None => return Ok(()),
                    Some(x) => x,
                },
                _ => Err("unreadable".to_owned()),
            };
            let mut failed = res.is_err();
            let mut want = before.get(&sol).cloned();
            if let Ok(o) = &res {
                if w {
                    match (&f.sol, force) {
                        (Content::Missing, _) | (Content::Text(_) | Content::Binary, true) => {
                            want = Some(Some(o.clone().into_bytes()));
                        }
                        // The file cannot be written.
                        (Content::Dir, true) => failed = true,
                        _ => {}
                    }
                } else {
                    stdout.push_str(o);
                    stdout.push('\n');
                }
            }
            if after.get(&sol).cloned() != want {
                return Err(format!(
                    "`{sol}` after scaffold {flags:?}: expected {}, found {}",
                    shown(&want),
                    shown(&after.get(&sol).cloned())
                ));
            }
            if failed {
                errors += 1;
                if c14 && !r.err.contains(&path) && !r.err.contains(&sol) {
                    return Err(format!("the failure of `{path}` is not reported: {:?}", tail(&r.err)));
                }
            }
        }
        if c13 && r.out != stdout {
            return Err(format!("stdout: expected {stdout:?}, found {:?}", r.out));
        }
        if c14 && !w && r.out != stdout {
            return Err(format!("not every good file was printed: expected {stdout:?}, found {:?}", r.out));
        }
        if c14 && (r.code == Some(0)) != (errors == 0) {
            return Err(format!("exit status {:?} with {errors} failing files", r.code));
        }
        if c14 && errors > 0 && r.code != Some(1) {
            return Err(format!("exit status {:?} with {errors} failing files", r.code));
        }
        return Ok(());
    }
    let (fix, stdout, no_mods) = (has("--fix"), has("--stdout"), has("-m"));
    if (!fix || stdout) && !ch.is_empty() {
        return Err(format!("check {flags:?} changed {:?}", names(&ch)));
    }
    let mut total = 0;
    for f in files {
        let Some(n) = file_violations(f, no_mods) else { return Ok(()) };
        total += n;
        let sol = format!("{}.t.sol", f.stem);
        if fix {
            let ok = matches!(&f.tree, Content::Text(t) if matches!(guarded(|| translate(t, &Config::default())), Ok(Ok(_))))
                && matches!(&f.sol, Content::Text(s) if solang_parser::parse(s, 0).is_ok());
            if !ok && after.get(&sol) != before.get(&sol) {
                return Err(format!("`{sol}` was changed although its tree or itself could not be read or parsed"));
            }
            if ok && c14 && !stdout {
                // The same file on its own gives the same result.
                let d1 = Scratch::new();
                put(&d1.0.join(f.path()), &f.tree);
                put(&d1.0.join(&sol), &f.sol);
                let mut a1 = vec![cmd.to_owned()];
                a1.extend(flags.iter().cloned());
                a1.push(f.path());
                run_bin(&d1.0, &a1);
                let alone = snapshot(&d1.0);
                if alone.get(&sol) != after.get(&sol) {
                    return Err(format!("`{sol}` is fixed differently next to other files"));
                }
            }
            if ok && stdout && !r.out.contains(&sol) {
                return Err(format!("`{sol}` is not printed by --stdout"));
            }
        } else if c14 && n > 0 {
            let path = f.path();
            if !r.err.contains(&path) && !r.err.contains(&sol) {
                return Err(format!("no violation is reported for `{path}`: {:?}", tail(&r.err)));
            }
        }
    }
    if !fix && c14 {
        let want = i32::from(total > 0);
        if r.code != Some(want) {
            return Err(format!("exit status {:?} with {total} violations", r.code));
        }
        let reported = r.err.matches("--> ").count();
        if reported != total {
            return Err(format!("{reported} violations reported, expected {total}: {:?}", tail(&r.err)));
        }
    }
    Ok(())
}
fn shown(x: &Option<Option<Vec<u8>>>) -> String {
    match x {
        None => "no file".into(),
        Some(None) => "a directory".into(),
        Some(Some(v)) => format!("{:?}", String::from_utf8_lossy(v)),
    }
}
fn tail(s: &str) -> String {
    s.chars().take(600).collect()
}

// --------------------------------------------------------------------- fix

struct Parts {
    /// Token streams of the source unit parts other than the first contract.
    others: Vec<Vec<String>>,
    header: Vec<String>,
    parts: Vec<(Option<(bool, String)>, Vec<String>)>,
    comments: BTreeMap<String, usize>,
}
fn rng(l: &Loc) -> (usize, usize) {
    match l {
        Loc::File(_, s, e) => (*s, *e),
        _ => (0, 0),
    }
}
fn fn_range(f: &pt::FunctionDefinition) -> (usize, usize) {
    let (s, mut e) = rng(&f.loc);
    if let Some(pt::Statement::Block { loc, .. }) = &f.body {
        e = e.max(rng(loc).1);
    }
    (s, e)
}
fn part_range(p: &ContractPart) -> (usize, usize) {
    match p {
        ContractPart::FunctionDefinition(f) => fn_range(f),
        ContractPart::StructDefinition(x) => rng(&x.loc),
        ContractPart::EventDefinition(x) => rng(&x.loc),
        ContractPart::EnumDefinition(x) => rng(&x.loc),
        ContractPart::ErrorDefinition(x) => rng(&x.loc),
        ContractPart::VariableDefinition(x) => rng(&x.loc),
        ContractPart::TypeDefinition(x) => rng(&x.loc),
        ContractPart::Annotation(x) => rng(&x.loc),
        ContractPart::Using(x) => rng(&x.loc),
        ContractPart::StraySemicolon(l) => rng(l),
    }
}
/// Tokens, with block comments up to what a formatter may do to their stars and blanks.
fn toks(src: &str) -> Vec<String> {
    let plain = |t: String| match t.strip_prefix("/*") {
        Some(x) => {
            let x: String = x.chars().map(|c| if c == '*' || c == '/' { ' ' } else { c }).collect();
            format!("/* {} */", x.split_whitespace().collect::<Vec<_>>().join(" "))
        }
        None => t,
    };
    sol_tokens(src).into_iter().map(plain).collect()
}
fn dissect(src: &str) -> Option<Parts> {
    let (u, _) = solang_parser::parse(src, 0).ok()?;
    let mut others = vec![];
    let mut first: Option<&pt::ContractDefinition> = None;
    for p in &u.0 {
        match p {
            SourceUnitPart::ContractDefinition(c) if first.is_none() => first = Some(c),
            SourceUnitPart::ContractDefinition(c) => {
                let (s, e) = rng(&c.loc);
                others.push(toks(&src[s..e]));
            }
            SourceUnitPart::FunctionDefinition(f) => {
                let (s, e) = fn_range(f);
                others.push(toks(&src[s..e]));
            }
            SourceUnitPart::VariableDefinition(x) => {
                let (s, e) = rng(&x.loc);
                others.push(toks(&src[s..e]));
            }
            SourceUnitPart::StructDefinition(x) => {
                let (s, e) = rng(&x.loc);
                others.push(toks(&src[s..e]));
            }
            other => others.push(toks(&other.to_string())),
        }
    }
    let c = first?;
    let (s, _) = rng(&c.loc);
    let body = c.parts.first().map(|p| part_range(p).0).unwrap_or(rng(&c.loc).1);
    let mut header: Vec<String> = toks(&src[s..body]);
    header.retain(|t| !t.starts_with("//") && !t.starts_with("/*"));
    // `contract NAME ...`: drop the name.
    if let Some(i) = header.iter().position(|t| t == "contract") {
        if i + 1 < header.len() {
            header.remove(i + 1);
        }
    }
    if let Some(i) = header.iter().position(|t| t == "{") {
        header.truncate(i + 1);
    }
    let parts = c
        .parts
        .iter()
        .map(|p| {
            let (s, e) = part_range(p);
            let id = match p {
                ContractPart::FunctionDefinition(f)
                    if matches!(f.ty, pt::FunctionTy::Function | pt::FunctionTy::Modifier) =>
                {
                    f.name.as_ref().map(|n| (f.ty == pt::FunctionTy::Modifier, n.name.clone()))
                }
                _ => None,
            };
            (id, toks(&src[s..e]))
        })
        .collect();
    let mut comments = BTreeMap::new();
    for t in toks(src) {
        if t.starts_with("//") || t.starts_with("/*") {
            *comments.entry(t).or_insert(0) += 1;
        }
    }
    Some(Parts { others, header, parts, comments })
}

/// Without its comments, which the formatter may move (they are counted on their own).
fn bare(t: &[String]) -> Vec<&String> {
    t.iter().filter(|t| !t.starts_with("//") && !t.starts_with("/*")).collect()
}

fn fixing(tree: &str, sol: &str, no_mods: bool) -> R {
    // The preconditions of C12.
    let Ok(Ok(h)) = guarded(|| translate(tree, &Config::default())) else { return Ok(()) };
    let Ok(p) = plan_pub(&h) else { return Ok(()) };
    if !unique_names(&p) || !matches!(guarded(|| scaffold(tree, &Config::default())), Ok(Ok(_))) {
        return Ok(());
    }
    let Ok((u, _)) = solang_parser::parse(sol, 0) else { return Ok(()) };
    match first_contract(&u) {
        Some(c) if matches!(c.ty, ContractTy::Contract(_)) => {}
        _ => return Ok(()),
    }
    let Ok(Ok(f0)) = guarded(|| forge_fmt::fmt(sol)) else { return Ok(()) };
    let Some(a) = dissect(&f0) else { return Ok(()) };

    let d = Scratch::new();
    std::fs::write(d.0.join("x.tree"), tree).unwrap();
    std::fs::write(d.0.join("x.t.sol"), sol).unwrap();
    let mut flags: Vec<String> = vec!["check".into(), "x.tree".into()];
    if no_mods {
        flags.push("-m".into());
    }
    let mut fixf = flags.clone();
    fixf.push("--fix".into());
    let r = run_bin(&d.0, &fixf);
    if r.code != Some(0) {
        return Err(format!("check --fix: exit {:?}, {:?}", r.code, tail(&r.err)));
    }
    let f1 = std::fs::read_to_string(d.0.join("x.t.sol")).unwrap_or_default();
    let r = run_bin(&d.0, &flags);
    if r.code != Some(0) {
        return Err(format!("violations remain after --fix: {:?}\nfixed file: {f1}", tail(&r.err)));
    }
    let Some(b) = dissect(&f1) else { return Err(format!("the fixed file does not parse: {f1}")) };
    if a.others != b.others {
        return Err(format!("code outside the contract changed: {:?} became {:?}", a.others, b.others));
    }
    if a.header != b.header {
        return Err(format!("the contract header changed: {:?} became {:?}", a.header, b.header));
    }
    let mut rest = b.parts.clone();
    for (id, toks) in &a.parts {
        match rest.iter().position(|x| bare(&x.1) == bare(toks)) {
            Some(i) => {
                rest.remove(i);
            }
            None => return Err(format!("`{}` of the original is lost or changed: {f1}", toks.join(" "))),
        }
        let _ = id;
    }
    let fixed: Vec<_> = a.parts.iter().filter(|x| x.0.is_none()).map(|x| bare(&x.1)).collect();
    let after: Vec<_> = b.parts.iter().filter(|x| x.0.is_none()).map(|x| bare(&x.1)).collect();
    if fixed != after {
        return Err(format!("the order of other declarations changed: {f1}"));
    }
    for (c, n) in &a.comments {
        if b.comments.get(c).copied().unwrap_or(0) < *n {
            return Err(format!("the comment `{c}` is lost: {f1}"));
        }
    }
    // What is new is exactly the missing functions, at their places.
    let missing: Vec<&Fun> = p
        .funs
        .iter()
        .filter(|f| !(no_mods && f.modifier))
        .filter(|f| !a.parts.iter().any(|x| x.0 == Some((f.modifier, f.name.clone()))))
        .collect();
    if rest.len() != missing.len() {
        return Err(format!("{} functions added, {} were missing: {f1}", rest.len(), missing.len()));
    }
    for f in missing {
        let id = Some((f.modifier, f.name.clone()));
        let Some(i) = b.parts.iter().position(|x| x.0 == id) else {
            return Err(format!("`{}` is still missing: {f1}", f.name));
        };
        let one = Plan { name: "C".into(), funs: vec![f.clone()] };
        let want = expected(&one, "0.8.0", false, false);
        let at = want.iter().position(|t| t == "{").unwrap() + 1;
        let want = &want[at..want.len() - 1];
        if b.parts[i].1 != want {
            return Err(format!("`{}` was generated as {:?}, expected {want:?}", f.name, b.parts[i].1));
        }
        let k = p.funs.iter().position(|x| x.name == f.name && x.modifier == f.modifier).unwrap();
        let before = p.funs[..k]
            .iter()
            .rev()
            .map(|x| Some((x.modifier, x.name.clone())))
            .find(|x| b.parts.iter().any(|y| &y.0 == x));
        match before {
            Some(prev) => {
                if i == 0 || b.parts[i - 1].0 != prev {
                    return Err(format!("`{}` is not directly after {prev:?}: {f1}", f.name));
                }
            }
            None => {
                if i != 0 && b.parts[..i].iter().any(|x| x.0.is_some()) {
                    return Err(format!("`{}` is not the first function: {f1}", f.name));
                }
            }
        }
    }
    Ok(())
}

pub fn judge(prop: &str, case: &Case) -> R {
    match case {
        Case::Fix { tree, sol, no_mods } => {
            if prop == "C17" {
                return fix_scaffolded(tree, *no_mods);
            }
            fixing(tree, sol, *no_mods)
        }
        Case::Cli { cmd, flags, files } => invocation(prop, cmd, flags, files),
        _ => unreachable!(),
    }
}

/// C17: `check` and `check --fix` on what `scaffold -w` wrote.
fn fix_scaffolded(tree: &str, no_mods: bool) -> R {
    let Ok(Ok(h)) = guarded(|| translate(tree, &Config::default())) else { return Ok(()) };
    let Ok(p) = plan_pub(&h) else { return Ok(()) };
    if !unique_names(&p) || !matches!(guarded(|| scaffold(tree, &Config::default())), Ok(Ok(_))) {
        return Ok(());
    }
    let d = Scratch::new();
    std::fs::write(d.0.join("x.tree"), tree).unwrap();
    let m = |v: &[&str]| {
        let mut v: Vec<String> = v.iter().map(|s| (*s).to_owned()).collect();
        if no_mods {
            v.push("-m".into());
        }
        v
    };
    let file = || std::fs::read_to_string(d.0.join("x.t.sol")).unwrap_or_default();
    let r = run_bin(&d.0, &m(&["scaffold", "x.tree", "-w"]));
    if r.code != Some(0) {
        return Err(format!("scaffold -w: exit {:?} {:?}", r.code, tail(&r.err)));
    }
    let s0 = file();
    let r = run_bin(&d.0, &m(&["check", "x.tree"]));
    if r.code != Some(0) {
        return Err(format!("check after scaffold: exit {:?} {:?}", r.code, tail(&r.err)));
    }
    let r = run_bin(&d.0, &m(&["check", "x.tree", "--fix"]));
    if r.code != Some(0) {
        return Err(format!("check --fix after scaffold: exit {:?} {:?}", r.code, tail(&r.err)));
    }
    let s1 = file();
    let (a, b) = (dissect(&s0).map(|p| p.parts), dissect(&s1).map(|p| p.parts));
    if a.is_none() || a != b {
        return Err(format!("check --fix changed a function: {s0} became {s1}"));
    }
    let r = run_bin(&d.0, &m(&["scaffold", "x.tree", "-w", "-f"]));
    if r.code != Some(0) || file() != s0 {
        return Err(format!("scaffolding again gives another file: {s0} became {}", file()));
    }
    Ok(())
}
