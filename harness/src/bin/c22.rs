//! C22: the command line tool, and writing files.
#[path = "../shared/capture.rs"]
mod capture;
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/progs.rs"]
mod progs;
use dot::{Prog, St};
use layout::backends::svg::SVGWriter;
use layout::core::utils::save_to_file;
use layout::gv::{dump_ast, DotParser, GraphBuilder};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vp::*;

/// A directory of this process, emptied for every case.
fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("vp-c22-{}", std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).expect("scratch directory");
    d
}
fn files(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(d)
        .expect("scratch directory")
        .map(|x| x.expect("entry").file_name().to_string_lossy().into_owned())
        .collect();
    v.sort();
    v
}

fn program(t: &mut Tape) -> String {
    let n = if t.chance(10) { 40 } else { 5 };
    let p = Prog { strict: false, directed: true, name: None, list: progs::list(t, n, 7, 0) };
    let mut toks = dot::tokens(t, &p);
    if t.chance(40) {
        let i = t.below(toks.len());
        toks.remove(i);
    }
    let mut s = dot::print(t, &toks);
    // The tool reads all of the text, as it is.
    match t.below(40) {
        0 => s.insert(0, '\u{feff}'),
        1 => s.push(*t.pick(&['\0', '\u{1a}', '\n', '}', '#'])),
        2 => s.push_str(*t.pick(&["\r\n", "\n\n\n", " // end", "\n# end\n", "/* */"])),
        3 => {
            let n = 70_000 + t.below(10);
            s.push_str(&" ".repeat(n));
            if t.chance(128) {
                s.push('x');
            }
        }
        _ => {}
    }
    s
}

struct Cli {
    debug: bool,
    no_opt: bool,
    no_layout: bool,
    ast: bool,
}

fn cli(t: &mut Tape, c: &mut Case) -> Verdict {
    let s = program(t);
    let o = Cli { debug: t.chance(70), no_opt: t.chance(70), no_layout: t.chance(70), ast: t.chance(70) };
    // What the library does with the program.
    let g = no_panic("parsing", || DotParser::new(&s).process())?;
    let exp = match &g {
        Ok(g) => Some(no_panic("rendering", || {
            let mut gb = GraphBuilder::new();
            gb.visit_graph(g);
            let mut vg = gb.get();
            let mut w = SVGWriter::new();
            vg.do_it(o.debug, o.no_opt, o.no_layout, &mut w);
            w.finalize()
        })?),
        Err(_) => None,
    };
    let same = exp.as_ref().map_or(17, |e| e.len());
    let old: Option<usize> = if t.chance(100) { Some(*t.pick(&[0, 10, 100_000, same])) } else { None };
    let target = t.weighted(&[20, 2, 2, 3]);
    let dir = scratch();
    let input = dir.join(t.pick(&["in.dot", "with space.dot", "no_extension"]));
    let out = match target {
        0 | 3 => dir.join(t.pick(&["out.svg", "o u t", "x"])),
        1 => dir.join("missing").join("out.svg"),
        _ => PathBuf::from("/dev/full"),
    };
    fs::write(&input, &s).expect("write");
    if let (Some(n), 0 | 3) = (old, target) {
        fs::write(&out, vec![b'~'; n]).expect("write");
    }
    // The output may be reached by a link.
    let link = dir.join("link");
    let linked = target == 0 && t.chance(20);
    if linked {
        std::os::unix::fs::symlink(out.file_name().expect("name"), &link).expect("link");
    }
    // The order of the arguments is free.
    let mut groups: Vec<Vec<String>> = Vec::new();
    if o.debug {
        groups.push(vec![t.pick(&["-d", "--debug"]).to_string()]);
    }
    if o.no_opt {
        groups.push(vec!["--no-optz".into()]);
    }
    if o.no_layout {
        groups.push(vec!["--no-layout".into()]);
    }
    if o.ast {
        groups.push(vec![t.pick(&["-a", "--ast"]).to_string()]);
    }
    // Paths may be relative to the working directory of the tool.
    let given = |t: &mut Tape, p: &Path| {
        let n = p.strip_prefix(&dir).unwrap_or(p).to_path_buf();
        match t.below(6) {
            0 => n,
            1 if n.is_relative() => Path::new(".").join(n),
            _ => p.to_path_buf(),
        }
        .to_string_lossy()
        .into_owned()
    };
    let os = given(t, if linked { &link } else { &out });
    groups.push(match t.below(4) {
        3 => vec![format!("-o{}", os)],
        0 => vec!["-o".into(), os.clone()],
        1 => vec!["--output".into(), os.clone()],
        _ => vec![format!("--output={}", os)],
    });
    let last = t.chance(30);
    if !last {
        groups.push(vec![given(t, &input)]);
    }
    for i in 1..groups.len() {
        let j = t.below(i + 1);
        groups.swap(i, j);
    }
    if last {
        groups.push(vec!["--".into(), given(t, &input)]);
    }
    let args: Vec<String> = groups.concat();
    // Whatever is logged must not change what is done.
    let log = *t.pick(&["error", "error", "warn", "info", "debug", "trace"]);
    c.input(format!("arguments {:?}, log {}, previous output of {:?} bytes, program: {}", args, log, old, if s.len() > 60_000 { s.trim_end() } else { &s }));
    c.nontrivial(true);
    c.label(if exp.is_some() { "accepted" } else { "rejected" });
    let bin = std::env::var("VP_CLI").expect("VP_CLI");
    // The disk is full after a part of the output.
    let limit = match &exp {
        Some(e) if target == 3 => Some(t.u32() as u64 % e.len() as u64),
        _ => None,
    };
    let r = with_file_limit(limit, || Command::new(bin).args(&args).current_dir(&dir).env("RUST_LOG", log).stdin(Stdio::null()).output()).expect("run the tool");
    let stdout = String::from_utf8_lossy(&r.stdout).into_owned();
    let stderr = String::from_utf8_lossy(&r.stderr).into_owned();
    ensure!(!stderr.contains("panicked at") && r.status.code().is_some(), "the tool crashed ({}): {}", r.status, stderr);
    ensure!(fs::read(&input).ok().as_deref() == Some(s.as_bytes()), "the tool changed its input");
    c.label_if(linked, "through a link");
    if linked {
        // What can be read by the path counts, not how it got there.
        if let (Some(_), Ok(b)) = (&exp, fs::read(&link)) {
            fs::write(&out, b).expect("write");
        }
        let _ = fs::remove_file(&link);
    }
    let mut want = vec![input.file_name().expect("name").to_string_lossy().into_owned()];
    match (&exp, target) {
        (Some(e), 0) => {
            let got = fs::read(&out).map_err(|e| format!("no output file: {}; the tool said {}", e, stderr))?;
            ensure!(
                got == e.as_bytes(),
                "the output file has {} bytes and is not the drawing of the library, {} bytes",
                got.len(),
                e.len()
            );
            ensure!(r.status.success(), "status {}", r.status);
            want.push(out.file_name().expect("name").to_string_lossy().into_owned());
        }
        (Some(_), _) => {
            c.label("output can't be written");
            if target == 3 {
                want = files(&dir);
            }
            ensure!(!stderr.trim().is_empty(), "the output could not be written, and the tool does not say so");
        }
        (None, _) => {
            ensure!(!stderr.trim().is_empty() || !stdout.trim().is_empty(), "the tool says nothing about a broken program");
            if matches!(target, 0 | 3) {
                let now = fs::read(&out).ok();
                ensure!(now == old.map(|n| vec![b'~'; n]), "a broken program changed the output file");
                if old.is_some() {
                    want.push(out.file_name().expect("name").to_string_lossy().into_owned());
                }
            }
        }
    }
    want.sort();
    ensure!(files(&dir) == want, "the tool leaves the files {:?}, expected {:?}", files(&dir), want);
    if let (true, Ok(g)) = (o.ast, &g) {
        let exp = capture::stdout(|| no_panic("dumping", || dump_ast(g)))?;
        ensure!(stdout.contains(exp.trim_end()), "the tool does not print the syntax tree; it prints {:?}", stdout);
    }
    let _ = fs::remove_dir_all(&dir);
    Ok(())
}

extern "C" {
    fn getrlimit(resource: i32, r: *mut [u64; 2]) -> i32;
    fn setrlimit(resource: i32, r: *const [u64; 2]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}

/// Runs `f` while files can't grow beyond `n` bytes.
fn with_file_limit<T>(n: Option<u64>, f: impl FnOnce() -> T) -> T {
    let n = match n {
        Some(n) => n,
        None => return f(),
    };
    unsafe {
        let mut old = [0u64; 2];
        getrlimit(1, &mut old);
        signal(25, 1);
        setrlimit(1, &[n, old[1]]);
        let r = f();
        setrlimit(1, &old);
        r
    }
}

fn save(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = *t.pick(&[0usize, 1, 50, 1000, 4096, 8192, 8193, 100_000, 300_000]) + t.below(40);
    let unit = dot::wild_text(t, 20) + t.pick(&["x", "{}", "%s", "é", "\n", "\r\n", "{0}"]);
    let mut content = String::new();
    while content.len() < n {
        content.push_str(&unit);
    }
    let old: Option<usize> = if t.chance(100) { Some(*t.pick(&[0, 10, 500_000, content.len(), content.len(), content.len() + 1])) } else { None };
    let fault = t.weighted(&[4, 1, 1, 1, 4]);
    let dir = scratch();
    let target = match fault {
        1 => dir.join("missing").join("out"),
        2 => PathBuf::from("/dev/full"),
        3 => dir.clone(),
        _ => dir.join(t.pick(&["out.svg", "o u t", "é"])),
    };
    if let (Some(n), 0 | 4) = (old, fault) {
        fs::write(&target, vec![b'~'; n]).expect("write");
    }
    let limit = if fault == 4 { Some((t.u32() as u64) % (content.len() as u64 * 5 / 4 + 2)) } else { None };
    c.input(format!(
        "{} bytes of {:?} into a {}, previous content of {:?} bytes, space for {:?} bytes",
        content.len(),
        unit,
        ["file", "file in a missing directory", "full device", "directory", "file"][fault],
        old,
        limit
    ));
    c.nontrivial(!content.is_empty());
    let path = target.to_string_lossy().into_owned();
    let r = no_panic("saving", || with_file_limit(limit, || save_to_file(&path, &content)))?;
    let complete = matches!(fault, 0 | 4) && fs::read(&target).ok().as_deref() == Some(content.as_bytes());
    let possible = match fault {
        0 => true,
        4 => limit >= Some(content.len() as u64),
        2 => content.is_empty(),
        _ => false,
    };
    c.label(if possible { "can be written" } else { "can't be written" });
    if r.is_ok() {
        ensure!(complete || (fault == 2 && content.is_empty()), "saving reports success, but the file does not have the content");
    } else {
        ensure!(!possible, "saving failed for no reason: {:?}", r);
    }
    if matches!(fault, 0 | 4) {
        ensure!(files(&dir).len() <= 1, "saving leaves the files {:?}", files(&dir));
    }
    let _ = fs::remove_dir_all(&dir);
    Ok(())
}

#[allow(dead_code)]
fn unused(_: &St) {}

fn main() {
    run_main(Check {
        id: "C22",
        rule: "Random programs (some broken) are given to the command line tool with random options in any order, to a new, an existing or an unwritable output, or with a disk that gets full; the output file must be, byte for byte, the drawing that the library makes with these options, a broken program must leave the output untouched, the input must not change, failures must be reported, and with the AST option the syntax tree must be printed. Random texts are saved through the library under injected faults (no directory, full device, the disk full after k bytes); success may only be reported when the file has exactly the content. Non-trivial: all cases of the tool; saved texts that are not empty.",
        assumptions: &["the exit status of the tool after a broken program or a failed write is not specified"],
        subs: vec![
            Sub::new("cli", cli, 15_000, 100_000).tape(3000),
            Sub::new("save", save, 20_000, 400_000).tape(300),
        ],
    });
}
