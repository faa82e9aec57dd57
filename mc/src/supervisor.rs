//! The supervisor: runs children, confirms what they report, and writes the evidence.

use crate::case::Case;
use crate::worker::{hex, read_journal, unhex, STUCK};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// The builds a check needs; the first one is the default build.
pub fn configs(prop: &str, thorough: bool) -> Vec<&'static str> {
    let mut all = vec!["strict"];
    match prop {
        "C03" => all.extend(["dir", "marks", "checksums", "lang", "all"]),
        "C21" if thorough => {
            all.extend([
                "dir", "marks", "checksums", "lang", "dir-marks", "dir-checksums", "dir-lang",
                "marks-checksums", "marks-lang", "checksums-lang", "dir-marks-checksums",
                "dir-marks-lang", "dir-checksums-lang", "marks-checksums-lang", "all",
            ]);
        }
        "C21" => all.extend(["dir", "marks", "checksums", "lang", "all"]),
        "C01" | "C02" | "C05" | "C07" | "C08" | "C15" | "C16" | "C17" | "C18" | "C20" | "C22" | "C24" => {
            all.push("all")
        }
        _ if thorough => all.push("all"),
        _ => {}
    }
    all
}

struct Report {
    config: String,
    numbers: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: Vec<(String, String)>,
    times: Vec<(f64, u64, String)>,
    violations: Vec<Found>,
}

#[derive(Clone)]
struct Found {
    config: String,
    known: String,
    case: Vec<u8>,
    summary: String,
}

fn parse(config: &str, text: &str) -> Option<Report> {
    let mut r = Report {
        config: config.to_string(),
        numbers: BTreeMap::new(),
        counts: BTreeMap::new(),
        maxima: BTreeMap::new(),
        samples: vec![],
        times: vec![],
        violations: vec![],
    };
    let mut complete = false;
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "end" => complete = true,
            "count" => {
                r.counts.insert(f[1].into(), f[2].parse().ok()?);
            }
            "max" => {
                r.maxima.insert(f[1].into(), f[2].parse().ok()?);
            }
            "sample" => r.samples.push((f[1].into(), f[2].into())),
            "time" => r.times.push((f[2].parse().ok()?, f[3].parse().ok()?, f[1].into())),
            "violation" => r.violations.push(Found {
                config: config.into(),
                known: f[1].into(),
                case: unhex(f[2])?,
                summary: f[3].into(),
            }),
            _ => {
                r.numbers.insert(f[0].into(), f[1].parse().ok()?);
            }
        }
    }
    if complete {
        Some(r)
    } else {
        None
    }
}

enum End {
    Code(i32),
    Signal,
    Timeout,
}

fn wait(mut child: std::process::Child, limit: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let from = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(status)) => {
                return match status.code() {
                    Some(code) => End::Code(code),
                    None => {
                        let _ = status.signal();
                        End::Signal
                    }
                }
            }
            Ok(None) => {}
            Err(_) => return End::Signal,
        }
        if from.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// What running a case on its own comes to: whether it ended badly, and what it printed.
fn confirm(bin: &str, prop: &str, case: &[u8], dir: &str) -> Option<(String, i32)> {
    let path = format!("{dir}/case");
    std::fs::write(&path, case).ok()?;
    let out = std::fs::File::create(format!("{dir}/case.out")).ok()?;
    let err = std::fs::File::create(format!("{dir}/case.err")).ok()?;
    let child = Command::new(bin)
        .args(["again", prop, &path])
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(err)
        .spawn()
        .ok()?;
    let end = wait(child, Duration::from_secs(90));
    let text = std::fs::read_to_string(format!("{dir}/case.out")).unwrap_or_default();
    let err = std::fs::read_to_string(format!("{dir}/case.err")).unwrap_or_default();
    let err: String = err.lines().take(3).collect::<Vec<_>>().join(" ");
    Some(match end {
        End::Code(code) => (text, code),
        End::Signal => (format!("the process is killed: {err}"), -1),
        End::Timeout => ("no end within 90 s".to_string(), -2),
    })
}

/// Whether a process that dies or hangs on an input is what a property is about.
fn about_survival(prop: &str) -> bool {
    matches!(prop, "C16" | "C23")
}

fn known_findings() -> Vec<(String, String)> {
    let path = format!("{}/known_findings.txt", root());
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("finding: property=")?;
            let (prop, rest) = rest.split_once(' ')?;
            let key = rest.split_whitespace().next()?;
            Some((prop.to_string(), key.to_string()))
        })
        .collect()
}

/// The directory of the framework.
fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn escape(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn load(path: &str) -> Option<Vec<(u64, u64)>> {
    let b = std::fs::read(path).ok()?;
    Some(
        b.chunks_exact(16)
            .map(|c| {
                (
                    u64::from_le_bytes(c[..8].try_into().unwrap()),
                    u64::from_le_bytes(c[8..].try_into().unwrap()),
                )
            })
            .collect(),
    )
}

pub fn check(prop: &str, tier: &str, bins: &[&str]) -> i32 {
    let from = Instant::now();
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let base = format!("{}/out/{prop}-{tier}-{}", root(), std::process::id());
    if std::fs::create_dir_all(&base).is_err() {
        return 2;
    }
    let code = explore(prop, thorough, seed, bins, &base, from);
    let _ = std::fs::remove_dir_all(&base);
    code
}

fn explore(prop: &str, thorough: bool, seed: u64, bins: &[&str], base: &str, from: Instant) -> i32 {
    let tier = if thorough { "thorough" } else { "quick" };
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let limit = if thorough { 6 * 3600 } else { 840 };
    let mut reports = vec![];
    let mut found: Vec<Found> = vec![];
    let mut paths = BTreeMap::new();
    for bin in bins {
        let (config, bin) = match bin.split_once('=') {
            Some(both) => both,
            None => return 2,
        };
        paths.insert(config.to_string(), bin.to_string());
        let out = format!("{base}/{config}.txt");
        let journal = format!("{base}/{config}.journal");
        let mut command = Command::new(bin);
        command.args(["child", prop, tier, &out, &journal]).stdin(Stdio::null());
        let child = match command.spawn() {
            Ok(child) => child,
            Err(e) => {
                eprintln!("cannot run {bin}: {e}");
                return 2;
            }
        };
        let left = Duration::from_secs(limit).saturating_sub(from.elapsed());
        match wait(child, left) {
            End::Code(0) => {
                let text = std::fs::read_to_string(&out).unwrap_or_default();
                match parse(config, &text) {
                    Some(report) => {
                        found.extend(report.violations.clone());
                        reports.push(report);
                    }
                    None => {
                        eprintln!("no report of {config}");
                        return 2;
                    }
                }
            }
            End::Code(code) if code != STUCK => {
                eprintln!("the exploration of {config} ended with {code}");
                return 2;
            }
            End::Timeout => {
                eprintln!("the exploration of {config} took too long");
                return 2;
            }
            _ => {
                // What was under way did this, or it did not.
                let mut any = false;
                for case in read_journal(&journal) {
                    match confirm(bin, prop, &case, base) {
                        Some((text, code)) if code < 0 => {
                            any = true;
                            if about_survival(prop) || verbose {
                                eprintln!("{text}");
                                if let Some(c) = Case::decode(&case) {
                                    let head = &c.mem.segs[0].data;
                                    let head = hex(&head[..head.len().min(60)]);
                                    eprintln!("  {:?} {:?} {} bytes: {head}", c.act, c.env, c.mem.len());
                                }
                            }
                            if about_survival(prop) {
                                found.push(Found {
                                    config: config.into(),
                                    known: String::new(),
                                    case,
                                    summary: text,
                                });
                            } else if let Some(text) = blamed(prop, &case) {
                                found.push(Found {
                                    config: config.into(),
                                    known: String::new(),
                                    case,
                                    summary: text,
                                });
                            }
                        }
                        Some((text, 1)) => {
                            any = true;
                            found.push(Found {
                                config: config.into(),
                                known: String::new(),
                                case,
                                summary: text,
                            });
                        }
                        _ => {}
                    }
                }
                if found.is_empty() {
                    let why = if any { "dies on an input that is not its to judge" } else { "died" };
                    eprintln!("the exploration of {config} {why}");
                    return 2;
                }
            }
        }
        // What is broken without any feature is broken.
        if found.iter().any(|f| f.known.is_empty()) {
            break;
        }
    }
    let mut compared = 0u64;
    if prop == "C21" && found.is_empty() {
        match compare_builds(&paths, tier, base, &mut compared) {
            Ok(more) => found.extend(more),
            Err(message) => {
                eprintln!("{message}");
                return 2;
            }
        }
    }
    if verbose {
        for r in &reports {
            let mut times = r.times.clone();
            times.sort_by(|a, b| b.0.total_cmp(&a.0));
            let total: f64 = times.iter().map(|t| t.0).sum();
            eprintln!("{}: {total:.1} s of workers", r.config);
            for (t, n, l) in times.iter().take(25) {
                eprintln!("  {t:8.2} s {n:10} runs  {l}");
            }
        }
    }
    // Known findings.
    let listed = known_findings();
    let is_known = |f: &Found| {
        !f.known.is_empty()
            && f.known.split(' ').all(|k| listed.iter().any(|(p, key)| p == prop && key == k))
    };
    let mut known: BTreeMap<String, Found> = BTreeMap::new();
    let mut fresh = vec![];
    for f in found {
        if is_known(&f) {
            for k in f.known.split(' ') {
                known.entry(k.to_string()).or_insert(f.clone());
            }
        } else {
            fresh.push(f);
        }
    }
    for (k, f) in &known {
        println!("KNOWN-FINDING: property={prop} {k}: {}", f.summary);
    }
    fresh.sort_by_key(|f| f.case.len());
    let mut replay = None;
    let count = fresh.len() as u64;
    if let Some(first) = fresh.first() {
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{tier}.txt");
        let mut text = String::new();
        let _ = writeln!(text, "property: {prop}");
        let _ = writeln!(text, "config: {}", first.config);
        let _ = writeln!(text, "what: {}", first.summary);
        let _ = writeln!(text, "case: {}", hex(&first.case));
        if let Some(case) = Case::decode(&first.case) {
            let _ = writeln!(text, "act: {:?}", case.act);
            let _ = writeln!(text, "environment: {:?}", case.env);
            for s in &case.mem.segs {
                let n = s.data.len().min(400);
                let more = if s.data.len() > n { ".." } else { "" };
                let _ = writeln!(text, "bytes at {}: {}{more}", s.start, hex(&s.data[..n]));
            }
        }
        let _ = writeln!(text, "again with: /verif/check.sh replay {path}");
        for f in fresh.iter().skip(1).take(20) {
            let _ = writeln!(text, "also ({}): {}", f.config, f.summary);
        }
        let _ = std::fs::write(&path, text);
        println!("{}: {}", first.config, first.summary);
        replay = Some(path);
    }
    if evidence(prop, tier, seed, &reports, compared, count, known.len(), from).is_err() {
        return 2;
    }
    let get = |k: &str| reports.iter().filter_map(|r| r.numbers.get(k)).sum::<u64>();
    println!(
        "{prop} {tier}: {} executions, {} distinct inputs, {} decisions, {} builds, {:.1} s",
        get("runs"),
        get("states"),
        get("steps"),
        reports.len(),
        from.elapsed().as_secs_f64()
    );
    match replay {
        Some(path) => {
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => 0,
    }
}

/// If an input that kills the process is one the library has to deal with under a property.
fn blamed(prop: &str, case: &[u8]) -> Option<String> {
    use crate::case::Act;
    use crate::ctx::disagree;
    use crate::real::Outcome;
    let case = Case::decode(case)?;
    let (demands, _) = crate::checks::plan(prop, false)?;
    if let Act::Table(root) = case.act {
        let mut r = crate::spec::R::parse(case.mem.clone(), crate::spec::build_cfg());
        r.limit = case.env.cut.unwrap_or(case.mem.len());
        let result = crate::spec::run(&mut r, root);
        let expected = crate::ctx::Expected { result, out: vec![], zero: [0; 3] };
        let died = Err(Outcome::Panic("the process dies or hangs".into()));
        return disagree(&expected, &died, &[], demands);
    }
    Some("the process dies or hangs".into())
}

/// Inputs that a tolerant build must treat as the strict one does.
fn compare_builds(
    paths: &BTreeMap<String, String>,
    tier: &str,
    base: &str,
    compared: &mut u64,
) -> Result<Vec<Found>, String> {
    let strict = load(&format!("{base}/strict.txt.rec")).ok_or("no record of the strict build")?;
    let mut found = vec![];
    for (config, bin) in paths {
        if config == "strict" {
            continue;
        }
        let other = load(&format!("{base}/{config}.txt.rec")).ok_or("no record of a build")?;
        let mut bad = None;
        let (mut i, mut j) = (0, 0);
        while i < strict.len() && j < other.len() {
            let (a, b) = (strict[i], other[j]);
            if a.0 < b.0 {
                i += 1;
            } else if a.0 > b.0 {
                j += 1;
            } else {
                *compared += 1;
                if a.1 != 0 && a.1 != b.1 {
                    bad = Some(a.0);
                    break;
                }
                i += 1;
                j += 1;
            }
        }
        let bad = match bad {
            Some(bad) => bad,
            None => continue,
        };
        // Find the input once more.
        let out = format!("{base}/find.txt");
        let status = Command::new(bin)
            .args(["child", "C21", tier, &out, &format!("{base}/find.journal")])
            .env("MC_FIND", bad.to_string())
            .stdin(Stdio::null())
            .status();
        let text = std::fs::read_to_string(&out).unwrap_or_default();
        match (status, parse(config, &text)) {
            (Ok(s), Some(r)) if s.success() && !r.violations.is_empty() => {
                found.extend(r.violations)
            }
            _ => return Err("an input that differs between builds was not found again".into()),
        }
    }
    Ok(found)
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    seed: u64,
    reports: &[Report],
    compared: u64,
    violations: u64,
    known: usize,
    from: Instant,
) -> std::io::Result<()> {
    let sum = |k: &str| reports.iter().filter_map(|r| r.numbers.get(k)).sum::<u64>();
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<&str, u64> = BTreeMap::new();
    for r in reports {
        for (k, v) in &r.counts {
            *counts.entry(k).or_default() += v;
        }
        for (k, v) in &r.maxima {
            let e = maxima.entry(k).or_default();
            *e = (*e).max(*v);
        }
    }
    let mut samples: Vec<String> = reports
        .first()
        .map(|r| r.samples.iter().map(|(_, v)| escape(v)).collect())
        .unwrap_or_default();
    samples.truncate(12);
    if samples.is_empty() {
        for (k, v) in counts.iter().take(6) {
            samples.push(escape(&format!("{k}: {v}")));
        }
    }
    let stopped = reports.iter().any(|r| r.numbers.get("stopped") == Some(&1));
    let mut s = String::from("{\n");
    let _ = writeln!(s, "  \"property\": {},", escape(prop));
    let _ = writeln!(s, "  \"tier\": {},", escape(tier));
    let _ = writeln!(s, "  \"seed\": {seed},");
    let _ = writeln!(s, "  \"level\": \"model_checking\",");
    let _ = writeln!(s, "  \"coverage\": {{");
    let _ = writeln!(s, "    \"states\": {},", sum("states"));
    let _ = writeln!(s, "    \"transitions\": {},", sum("steps") + sum("runs"));
    let _ = writeln!(s, "    \"traces_validated_against_impl\": {},", sum("runs"));
    let _ = writeln!(s, "    \"rule\": {},", escape(
        "states: distinct inputs (bytes, environment and operations) the library was run on, \
         summed over builds; transitions: decisions of the generator plus operations performed; \
         traces: executions of the real library whose outcome was judged",
    ));
    let _ = writeln!(s, "    \"generator_decisions\": {},", sum("steps"));
    let _ = writeln!(s, "    \"distinct_decoded_values\": {},", sum("outcomes"));
    let _ = writeln!(s, "    \"bytes_delivered\": {},", sum("bytes"));
    let _ = writeln!(s, "    \"without_claim\": {},", sum("unspecified"));
    let _ = writeln!(s, "    \"skipped_as_too_large\": {},", sum("skipped"));
    let _ = writeln!(s, "    \"jobs\": {},", sum("jobs"));
    let builds: Vec<String> = reports.iter().map(|r| escape(&r.config)).collect();
    let _ = writeln!(s, "    \"builds\": [{}],", builds.join(", "));
    if prop == "C21" {
        let _ = writeln!(s, "    \"inputs_compared_between_builds\": {compared},");
    }
    for (k, v) in &counts {
        let _ = writeln!(s, "    {}: {v},", escape(k));
    }
    for (k, v) in &maxima {
        let _ = writeln!(s, "    {}: {v},", escape(k));
    }
    let _ = writeln!(s, "    \"known_findings_seen\": {known},");
    let _ = writeln!(s, "    \"stopped_early\": {stopped},");
    let _ = writeln!(s, "    \"samples\": [\n      {}\n    ]", samples.join(",\n      "));
    let _ = writeln!(s, "  }},");
    let _ = writeln!(s, "  \"wall_s\": {:.2},", from.elapsed().as_secs_f64());
    let _ = writeln!(s, "  \"violations\": {violations}");
    s.push_str("}\n");
    let dir = format!("{}/evidence", root());
    std::fs::create_dir_all(&dir)?;
    std::fs::write(format!("{dir}/{prop}.json"), s)
}

/// Run the case of a replay file; the binary is that of its build.
pub fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(text) => text,
        Err(_) => return 2,
    };
    let field = |name: &str| {
        text.lines().find_map(|l| l.strip_prefix(&format!("{name}: ")[..])).map(|s| s.to_string())
    };
    let (prop, case) = match (field("property"), field("case").and_then(|c| unhex(&c))) {
        (Some(prop), Some(case)) => (prop, case),
        _ => return 2,
    };
    let dir = std::env::temp_dir().join(format!("mc-replay-{}", std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        return 2;
    }
    let bin = std::env::current_exe().unwrap();
    let end = confirm(&bin.to_string_lossy(), &prop, &case, &dir.to_string_lossy());
    let _ = std::fs::remove_dir_all(&dir);
    match end {
        Some((text, code)) => {
            println!("{text}");
            if code == 1 || code < 0 {
                println!("VIOLATION property={prop} replay={path}");
                1
            } else {
                0
            }
        }
        None => 2,
    }
}
