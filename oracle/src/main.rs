mod check;
mod gen;
mod model;
mod reference;
mod sem;

use gen::*;
use model::*;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn vset_str(v: &VSet) -> String {
    let spec: Vec<String> = v.lay.spec.iter().map(|(k, n)| format!("{k}:{n}")).collect();
    format!("{} {} {} {}", v.stack_limit, v.fpf, spec.join(","), hex(v.sig.as_bytes()))
}
fn vset_parse(s: &str) -> VSet {
    let p: Vec<&str> = s.split(' ').collect();
    let f: Vec<(char, u64)> = p[2]
        .split(',')
        .map(|x| {
            let (k, n) = x.split_once(':').unwrap();
            (k.chars().next().unwrap(), n.parse().unwrap())
        })
        .collect();
    let sig = String::from_utf8(unhex(p.get(3).copied().unwrap_or(""))).unwrap();
    VSet { stack_limit: p[0].parse().unwrap(), fpf: p[1].parse().unwrap(), sig, lay: Lay::new(&[f[0], f[1], f[2], f[3]]).unwrap() }
}
fn case_str(prop: &str, c: &Case) -> String {
    format!(
        "property={prop}\nkind={}\nformat={}\nlua50={}\nlua51={}\noutput={}\ninput={}\n",
        c.kind,
        hex(&c.fmt.bytes()),
        vset_str(&c.set.l50),
        vset_str(&c.set.l51),
        vset_str(&c.set.out),
        hex(&c.input)
    )
}
fn case_parse(text: &str) -> (String, Case) {
    let get = |k: &str| {
        text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('='))).unwrap_or_else(|| panic!("no {k} in case")).to_string()
    };
    let set = Set { l50: vset_parse(&get("lua50")), l51: vset_parse(&get("lua51")), out: vset_parse(&get("output")) };
    (get("property"), Case { input: unhex(&get("input")), fmt: Fmt::from_bytes(&unhex(&get("format"))), set, kind: get("kind") })
}

fn sample(r: &mut Rng, v: Ver) -> (Func, Set, Fmt) {
    let set = Set::std();
    let f = Fmt { int: 4, ..STD };
    let d = func(r, v, &f, &set, &Shape { wild: false, max_code: 6, depth: 1, canonical: true });
    (d, set, f)
}

/// Cases that are always run first.
fn enumerated(prop: &str) -> Vec<Case> {
    let mut out = vec![];
    let mut r = Rng::new(7);
    let other = Fmt { little: false, ..STD };
    match prop {
        "C01" | "C03" => {
            for v in [Ver::L50, Ver::L51] {
                for _ in 0..4 {
                    let (d, set, f) = sample(&mut r, v);
                    let full = encode(v, &d, f, &set);
                    for n in 0..full.len() {
                        out.push(Case { input: full[..n].to_vec(), fmt: other, set: set.clone(), kind: "truncated".into() });
                    }
                    for n in [1, 2, 9] {
                        let mut x = full.clone();
                        x.extend(vec![0; n]);
                        out.push(Case { input: x, fmt: other, set: set.clone(), kind: "trailing bytes".into() });
                    }
                }
                for n in [1, 2, 100, 200, 201, 202, 300, 2000, 30000] {
                    out.push(deep(n, v));
                }
            }
        }
        _ => {}
    }
    if ["C01", "C02", "C03", "C16"].contains(&prop) {
        for v in [Ver::L50, Ver::L51] {
            let (d, set, _) = sample(&mut r, v);
            for little in [false, true] {
                for num in [4, 8] {
                    for integral in [false, true] {
                        for int in [4, 8] {
                            let f = Fmt { little, num, integral, int, ..STD };
                            let full = encode(v, &d, f, &set);
                            for fmt in [STD, f, Fmt { integral: true, ..STD }] {
                                out.push(Case { input: full.clone(), fmt, set: set.clone(), kind: "header".into() });
                            }
                            if int == 4 && little {
                                for at in 0..22 {
                                    for b in 0..=255 {
                                        let mut x = full.clone();
                                        x[at] = b;
                                        out.push(Case { input: x, fmt: other, set: set.clone(), kind: "header byte".into() });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if ["C07", "C09", "C08", "C10", "C12", "C01"].contains(&prop) {
        // every opcode with small, large and boundary operands
        for v in [Ver::L50, Ver::L51] {
            for op in 0..64u64 {
                for lay in 0..4 {
                    let mut set = Set::std();
                    match lay {
                        1 => set.out.lay = Lay::new(&[('O', 6), ('C', 10), ('B', 10), ('A', 8)]).unwrap(),
                        2 => set.out.lay = Lay::new(&[('A', 8), ('O', 8), ('B', 8), ('C', 8)]).unwrap(),
                        3 => {
                            set.out.fpf = 7;
                            set.out.stack_limit = 1000;
                        }
                        _ => {}
                    }
                    let l = if v == Ver::L50 { set.l50.lay } else { set.l51.lay };
                    for k in 0..12u64 {
                        let pickv = |s: Slot, salt: u64| match (k + salt) % 6 {
                            0 => 0,
                            1 => s.max(),
                            2 => s.max() / 2,
                            3 => s.max() / 2 + 1,
                            4 => 3 + salt,
                            _ => 249 + (k / 6),
                        }
                        .min(s.max());
                        let w = l.op.put(op.min(l.op.max())) | l.a.put(pickv(l.a, if k < 6 { 4 } else { 1 })) | l.b.put(pickv(l.b, 0)) | l.c.put(pickv(l.c, k / 6));
                        let mut d = Func::empty();
                        let pad = Ins::bc(0, 1, rg(0), rg(0)).encode(v, if v == Ver::L50 { &set.l50 } else { &set.l51 }).unwrap();
                        d.code = vec![pad, pad, w, pad];
                        d.lines = vec![1, 2, 3, 4];
                        d.consts = vec![Konst::Nil];
                        out.push(Case { input: encode(v, &d, STD, &set), fmt: other, set: set.clone(), kind: "opcode".into() });
                    }
                }
            }
        }
    }
    if ["C05", "C01"].contains(&prop) {
        for int in [4u8, 8] {
            for num in [4u8, 8] {
                for integral in [false, true] {
                    for onum in [4u8, 8] {
                        for ointegral in [false, true] {
                            for oint in [4u8, 8] {
                                for v in [Ver::L50, Ver::L51] {
                                    let f = Fmt { int, num, integral, ..STD };
                                    for _ in 0..60 {
                                        let mut d = Func::empty();
                                        d.consts = vec![Konst::Num(gen::num(&mut r, &f))];
                                        d.line = gen::int(&mut r, int);
                                        if r.chance(70) {
                                            d.line = 5;
                                        }
                                        let little = r.chance(50);
                                        let set = Set::std();
                                        out.push(Case {
                                            input: encode(v, &d, f, &set),
                                            fmt: Fmt { num: onum, integral: ointegral, int: oint, little, ..STD },
                                            set,
                                            kind: "number".into(),
                                        });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if prop == "C08" {
        // all sizes around the documented limits in all orders, plus repeats
        let sizes = [0u64, 5, 6, 7, 8, 9, 16, 17, 31, 32, 33, 64, u64::MAX];
        for ix in 0..4 * 4 * 4 * 4usize {
            let kinds = [ix & 3, ix >> 2 & 3, ix >> 4 & 3, ix >> 6 & 3];
            for n in 0..60u64 {
                let mut b = vec![];
                for (j, k) in kinds.iter().enumerate() {
                    b.push(*k as u8);
                    let s = if n == 0 {
                        [6, 8, 9, 9][*k]
                    } else if n <= 13 && j == 0 {
                        sizes[n as usize - 1]
                    } else if n <= 26 && n > 13 && j == 1 {
                        sizes[n as usize - 14]
                    } else if n <= 39 && n > 26 && j == 2 {
                        sizes[n as usize - 27]
                    } else if n <= 52 && n > 39 && j == 3 {
                        sizes[n as usize - 40]
                    } else if n > 52 {
                        6 + r.below(26)
                    } else {
                        [6, 8, 9, 9][*k]
                    };
                    b.extend(s.to_le_bytes());
                }
                out.push(Case { input: b, fmt: STD, set: Set::std(), kind: "layout".into() });
            }
        }
    }
    if prop != "C08" && prop != "C01" && prop != "C03" {
        for v in [Ver::L50, Ver::L51] {
            for n in [1, 2, 3, 100, 128, 129, 199, 200, 201, 202] {
                out.push(deep(n, v));
            }
        }
    }
    if ["C01", "C09", "C11"].contains(&prop) {
        for n in (0..24).chain([100, 101, 256, 300]) {
            for _ in 0..12 {
                let without = r.below(n + 2);
                out.push(taken(&mut r, n, without));
                out.push(taken(&mut r, n, n));
            }
        }
    }
    if prop != "C08" {
        let sizes: &[usize] = &[127, 128, 255, 256, 257, 511, 512, 4096, 32768, 65535, 65536, 65537, 70000];
        for v in [Ver::L50, Ver::L51] {
            for which in 0..=10 {
                for &n in sizes {
                    out.push(big(which, n, v));
                }
            }
        }
    }
    if prop == "C15" {
        // every element count up to three pages, for a few page sizes
        for (a, b) in [(32u64, 50u64), (50, 32), (4, 8), (8, 4), (3, 5), (5, 3), (1, 2), (2, 1), (4, 6), (8, 8)] {
            for v in [Ver::L50, Ver::L51] {
                for n in 1..=a.max(b) * 3 + 1 {
                    for open in [false, true] {
                        let mut set = Set::std();
                        set.l50.fpf = a;
                        set.l51.fpf = a;
                        set.out.fpf = b;
                        let mut t = Tab { v, fpf: a, code: vec![], r: &mut r, k: 0, kinds: vec![] };
                        let mut kinds = vec![El::K; n as usize];
                        if open {
                            *kinds.last_mut().unwrap() = El::Call;
                        }
                        t.table(0, 0, kinds, 0, open);
                        let mut code = std::mem::take(&mut t.code);
                        code.push(Ins::bc(op(v, "RETURN"), 0, rg(2), rg(0)));
                        let vs = if v == Ver::L50 { &set.l50 } else { &set.l51 };
                        let mut d = Func::empty();
                        d.code = code.iter().map(|i| i.encode(v, vs).unwrap()).collect();
                        out.push(Case { input: encode(v, &d, STD, &set), fmt: STD, set, kind: "table constructor".into() });
                    }
                }
            }
        }
    }
    if prop == "C04" || prop == "C17" {
        for b in 0..=255u8 {
            let mut d = Func::empty();
            d.source = vec![b];
            d.consts = vec![Konst::Str(vec![b'x', b, 0])];
            d.locals = vec![Local { name: vec![b, b], start: 0, end: 1 }];
            d.upvals = vec![vec![b]];
            let set = Set::std();
            out.push(Case { input: encode(Ver::L51, &d, STD, &set), fmt: other, set, kind: "string".into() });
        }
    }
    out
}

fn generate(prop: &str, r: &mut Rng) -> Case {
    if ["C01", "C06", "C09", "C10", "C11", "C12", "C13", "C14", "C15"].contains(&prop) && r.chance(20) {
        let v = r.pick(&[Ver::L50, Ver::L50, Ver::L51]);
        let v = if ["C09", "C11"].contains(&prop) { Ver::L50 } else { v };
        return soup(r, v);
    }
    let pick = r.below(100);
    match prop {
        "C01" => match pick {
            0..=44 => {
                let v = r.pick(&[Ver::L50, Ver::L51]);
                random(r, v, true)
            }
            45..=59 => {
                let v = r.pick(&[Ver::L50, Ver::L51]);
                table(r, v)
            }
            60..=84 => {
                let v = r.pick(&[Ver::L50, Ver::L51]);
                let w = r.chance(50);
                let c = random(r, v, w);
                mutate(r, c)
            }
            _ => {
                let v = r.pick(&[Ver::L50, Ver::L51]);
                let c = table(r, v);
                mutate(r, c)
            }
        },
        "C02" | "C03" | "C04" | "C05" | "C06" | "C12" | "C13" => {
            let v = r.pick(&[Ver::L50, Ver::L51]);
            let wild = r.chance(40);
            let mut c = if prop == "C12" && r.chance(30) { table(r, v) } else { random(r, v, wild) };
            if prop == "C02" && r.chance(30) {
                // same format on both sides
                if let Ok((_, f, _)) = reference::read_header(&c.input, &c.set) {
                    c.fmt = f;
                }
                if r.chance(50) {
                    c = Case { set: Set { out: c.set.l51.clone(), ..c.set.clone() }, ..c };
                }
            }
            if prop == "C03" && r.chance(50) {
                c = mutate(r, c);
            }
            c
        }
        "C07" => {
            let v = r.pick(&[Ver::L50, Ver::L51, Ver::L51]);
            let wild = r.chance(80);
            random(r, v, wild)
        }
        "C08" => random(r, Ver::L51, true),
        "C09" | "C14" | "C16" => {
            let wild = r.chance(30);
            let v = if prop == "C14" && r.chance(30) { Ver::L51 } else { Ver::L50 };
            random(r, v, wild)
        }
        "C10" | "C11" => {
            let v = if r.chance(75) { Ver::L50 } else { Ver::L51 };
            if r.chance(15) {
                return table(r, v);
            }
            let wild = r.chance(30);
            random(r, v, wild)
        }
        "C15" => {
            let v = r.pick(&[Ver::L50, Ver::L51]);
            if r.chance(95) {
                table(r, v)
            } else {
                random(r, v, true)
            }
        }
        "C17" => canonical(r),
        _ => panic!("unknown property {prop}"),
    }
}

fn prop_salt(p: &str) -> u64 {
    p.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))
}

fn case_at(prop: &str, seed: u64, index: u64, fixed: &[Case]) -> Case {
    if (index as usize) < fixed.len() {
        fixed[index as usize].clone()
    } else {
        generate(prop, &mut Rng::new(seed ^ prop_salt(prop) ^ index.wrapping_mul(0x2545F4914F6CDD1D)))
    }
}

/// Make a failing case smaller while it keeps failing.
fn shrink(prop: &str, c: &Case) -> Case {
    let mut best = c.clone();
    let deadline = Instant::now() + Duration::from_secs(10);
    let mut changed = true;
    while changed && Instant::now() < deadline {
        changed = false;
        let mut tries = vec![];
        let std = Set::std();
        for (i, s) in [&std.l50, &std.l51, &std.out].into_iter().enumerate() {
            let mut n = best.clone();
            [&mut n.set.l50, &mut n.set.l51, &mut n.set.out][i].clone_from(s);
            tries.push(n);
        }
        tries.push(Case { fmt: STD, ..best.clone() });
        for t in tries {
            if t != best && check::check(prop, &t).is_some() {
                best = t;
                changed = true;
            }
        }
    }
    best
}

fn signature(c: &Case) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    for b in c.input.iter().chain(&c.fmt.bytes()) {
        x = (x ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    for v in [&c.set.l50, &c.set.l51, &c.set.out] {
        for b in vset_str(v).bytes() {
            x = (x ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    x
}

/// worker PROP SEED START END PROGRESS_FILE SECS SLICE NSLICES
fn worker(a: &[String]) -> i32 {
    if std::env::var("ORACLE_NOISE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let prop = &a[0];
    let (seed, start, secs): (u64, u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[4].parse().unwrap());
    let (slice, nslices): (u64, u64) = (a[5].parse().unwrap(), a[6].parse().unwrap());
    let known: Vec<u64> = a.get(7).map(|k| k.split(',').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect()).unwrap_or_default();
    let progress = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&a[3]).unwrap();
    let fixed = enumerated(prop);
    let until = Instant::now() + Duration::from_secs(secs);
    let mut index = start + slice;
    let mut done = 0u64;
    let mut ok = 0u64;
    let mut seen = std::collections::HashSet::new();
    loop {
        let c = case_at(prop, seed, index, &fixed);
        progress.write_all_at(&index.to_le_bytes(), 0).unwrap();
        let f = check::check(prop, &c);
        done += 1;
        if seen.len() < 4_000_000 && seen.insert(signature(&c)) && matches!(reference::unify(&c.input, c.fmt, &c.set), Ok(_)) {
            ok += 1;
        }
        if let Some(why) = f {
            if !known.contains(&signature(&c)) {
                let s = shrink(prop, &c);
                let why2 = check::check(prop, &s).unwrap_or(why);
                println!("FAIL {index}");
                println!("{}explanation={}", case_str(prop, &s), why2.replace('\n', " | "));
                return 1;
            } else {
                println!("KNOWN {:016x}", signature(&c));
            }
        }
        index += nslices;
        if index as usize >= fixed.len() && Instant::now() > until {
            break;
        }
    }
    println!("DONE evaluations={done} distinct={} convertible={ok} enumerated={}", seen.len(), fixed.len());
    0
}

/// search PROP SEED SECS OUT [KNOWN]
fn search(a: &[String]) -> i32 {
    let (prop, seed, secs, out) = (&a[0], &a[1], &a[2], &a[3]);
    let known = a.get(4).cloned().unwrap_or_default();
    let exe = std::env::current_exe().unwrap();
    let n = 6;
    let dir = std::env::temp_dir().join(format!("oracle.{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut kids = vec![];
    for s in 0..n {
        let progress = dir.join(format!("p{s}"));
        std::fs::write(&progress, []).unwrap();
        let log = dir.join(format!("o{s}"));
        let cmd = format!(
            "ulimit -v 4000000; exec {} worker {prop} {seed} 0 {} {secs} {s} {n} {}",
            exe.display(),
            progress.display(),
            if known.is_empty() { "-" } else { &known }
        );
        let kid = Command::new("sh").arg("-c").arg(cmd).stdout(std::fs::File::create(&log).unwrap()).stderr(Stdio::null()).spawn().unwrap();
        kids.push((kid, progress, log, (0u64, Instant::now())));
    }
    let mut verdict: Option<String> = None;
    let mut totals = [0u64; 4];
    let mut harness = false;
    let mut known_hit = std::collections::BTreeSet::new();
    while !kids.is_empty() && verdict.is_none() {
        std::thread::sleep(Duration::from_millis(50));
        let mut rest = vec![];
        for (mut kid, progress, log, mut last) in kids {
            let at = || {
                let b = std::fs::read(&progress).unwrap_or_default();
                if b.len() == 8 {
                    Some(u64::from_le_bytes(b.try_into().unwrap()))
                } else {
                    None
                }
            };
            let crash = |what: &str| {
                let ix = at().unwrap_or(0);
                let c = case_at(prop, seed.parse().unwrap(), ix, &enumerated(prop));
                // a crash is a violation of totality; for the other properties the
                // demanded result was not produced
                let mine = prop == "C01" || prop == "C03" || reference::unify(&c.input, c.fmt, &c.set).is_ok();
                if mine {
                    Some(format!("{}explanation=the process {what}\n", case_str(prop, &c)))
                } else {
                    None
                }
            };
            match kid.try_wait().unwrap() {
                None => {
                    if let Some(ix) = at() {
                        if ix != last.0 {
                            last = (ix, Instant::now());
                        } else if last.1.elapsed() > Duration::from_secs(30) {
                            let _ = kid.kill();
                            let _ = kid.wait();
                            verdict = verdict.or(crash("did not finish within 30 s"));
                            continue;
                        }
                    }
                    rest.push((kid, progress, log, last));
                }
                Some(status) => {
                    let text = std::fs::read_to_string(&log).unwrap_or_default();
                    for l in text.lines() {
                        if let Some(k) = l.strip_prefix("KNOWN ") {
                            known_hit.insert(k.to_string());
                        }
                        if l.starts_with("DONE ") {
                            for (i, w) in l.split(' ').skip(1).enumerate() {
                                let v: u64 = w.split_once('=').unwrap().1.parse().unwrap();
                                if i == 3 {
                                    totals[3] = v
                                } else {
                                    totals[i] += v
                                }
                            }
                        }
                    }
                    match status.code() {
                        Some(0) => {}
                        Some(1) => {
                            let at = text.find("property=").unwrap_or(0);
                            verdict = Some(text[at..].to_string());
                        }
                        Some(101) => {
                            eprintln!("harness error: worker panicked at case {:?}", at());
                            harness = true;
                        }
                        _ => {
                            if at().is_some() {
                                verdict = verdict.or(crash(&format!("died ({status})")));
                            }
                        }
                    }
                }
            }
        }
        kids = rest;
    }
    for (mut k, ..) in kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    let _ = std::fs::remove_dir_all(&dir);
    for k in known_hit {
        println!("known={k}");
    }
    println!("evaluations={} distinct={} convertible={} enumerated={}", totals[0], totals[1], totals[2], totals[3]);
    match verdict {
        Some(v) => {
            std::fs::write(out, &v).unwrap();
            println!("violation={out}");
            print!("{v}");
            1
        }
        None if harness || totals[0] == 0 => 2,
        None => 0,
    }
}

fn replay(a: &[String]) -> i32 {
    let text = std::fs::read_to_string(&a[0]).unwrap();
    let (p, c) = case_parse(&text);
    let prop = a.get(1).cloned().unwrap_or(p);
    println!("signature={:016x}", signature(&c));
    println!("unify: {:?}", match check::run(&c) {
        check::Got::Ok(v) => format!("Ok({})", hex(&v)),
        other => format!("{other:?}"),
    });
    println!("wanted: {:?}", reference::unify(&c.input, c.fmt, &c.set).map(|v| hex(&v)));
    match check::check(&prop, &c) {
        Some(why) => {
            println!("VIOLATED {prop}: {why}");
            1
        }
        None => {
            println!("holds {prop}");
            0
        }
    }
}

/// known NAME: exit 1 if the listed finding still shows, 0 if it is gone
fn known(a: &[String]) -> i32 {
    match a[0].as_str() {
        // Lua 5.1 puts the page number of SETLIST into the next word if it does
        // not fit into C; that word is not an instruction
        "C15-setlist-page-word" => {
            let set = Set::std();
            let l = &set.l51.lay;
            let mut d = Func::empty();
            let ins = |i: Ins| i.encode(Ver::L51, &set.l51).unwrap();
            let setlist = l.op.put(op51("SETLIST") as u64) | l.a.put(0) | l.b.put(1) | l.c.put(0);
            d.code = vec![ins(Ins::bc(op51("NEWTABLE"), 0, rg(0), rg(0))), ins(Ins::x(op51("LOADK"), 1, 0)), setlist, 575, ins(Ins::bc(op51("RETURN"), 0, rg(1), rg(0)))];
            d.consts = vec![Konst::Nil];
            let c = Case { input: encode(Ver::L51, &d, STD, &set), fmt: Fmt { little: false, ..STD }, set, kind: "setlist page word".into() };
            let got = check::run(&c);
            println!("{got:?}");
            !matches!(got, check::Got::Ok(_)) as i32
        }
        _ => 2,
    }
}

/// samples PROP SEED: a few cases, written out
fn samples(a: &[String]) -> i32 {
    let fixed = enumerated(&a[0]);
    let n = fixed.len() as u64;
    for ix in [0, n, n + 1, n + 2] {
        let c = case_at(&a[0], a[1].parse().unwrap(), ix, &fixed);
        if c.input.len() < 400 {
            println!("{} | format {} | input {}", c.kind, hex(&c.fmt.bytes()), hex(&c.input));
        }
    }
    0
}

/// outcomes SEED COUNT: what the code under test does with the cases of every
/// property, one line each; the same program linked with the extracted text
/// has to write the same lines
fn outcomes(a: &[String]) -> i32 {
    let (seed, count): (u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let mut out = std::io::LineWriter::new(out.lock());
    for n in 1..=17 {
        let prop = format!("C{n:02}");
        let fixed = enumerated(&prop);
        let step = (fixed.len() as u64 / count).max(1);
        let fixed: Vec<Case> = fixed.into_iter().enumerate().filter(|(i, _)| (*i as u64 + seed) % step == 0).map(|(_, c)| c).collect();
        for ix in 0..fixed.len() as u64 + count {
            let c = case_at(&prop, seed ^ 0xE47, ix, &fixed);
            let mut h = 0xcbf29ce484222325u64;
            let text = match check::layout_of(&c) {
                Some(x) => x,
                None => match check::run(&c) {
                    check::Got::Ok(v) => format!("Ok {}", hex(&v)),
                    check::Got::Err(e) => format!("Err {e:?}"),
                    check::Got::Panic(_) => "panic".to_string(),
                },
            };
            for b in text.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            let word: String = text.chars().take_while(|c| c.is_alphanumeric()).collect();
            writeln!(out, "{prop} {ix} {} {h:016x} {word}", c.kind.replace(' ', "-")).unwrap();
        }
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1..]),
        Some("search") => search(&a[1..]),
        Some("replay") => replay(&a[1..]),
        Some("known") => known(&a[1..]),
        Some("outcomes") => outcomes(&a[1..]),
        Some("samples") => samples(&a[1..]),
        _ => {
            eprintln!("usage: oracle search PROP SEED SECS OUT [KNOWN] | replay FILE [PROP] | samples PROP SEED");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
