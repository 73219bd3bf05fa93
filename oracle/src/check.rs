//! Decides, for one concrete input, whether the code under test behaves as a
//! property demands.
use crate::gen::Case;
use crate::model::*;
use crate::reference::{self, decode, DFunc};
use crate::sem;
use lunify::LunifyError as E;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
pub enum Got {
    Ok(Vec<u8>),
    Err(E),
    Panic(String),
}

pub fn run(c: &Case) -> Got {
    if c.set.rejected().is_some() {
        return Got::Err(E::InvalidInstructionLayout);
    }
    let fmt = c.fmt.lunify();
    let settings = c.set.lunify();
    let r = catch_unwind(AssertUnwindSafe(|| lunify::unify(&c.input, &fmt, &settings)));
    match r {
        Ok(Ok(v)) => Got::Ok(v),
        Ok(Err(e)) => Got::Err(e),
        Err(p) => Got::Panic(
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
    }
}

/// Settings under which an output chunk has to be read.
fn out_set(s: &Set) -> Set {
    Set { l50: s.out.clone(), l51: s.out.clone(), out: s.out.clone() }
}

type Fail = Option<String>;

fn walk(a: &DFunc, b: &DFunc, path: &str, f: &mut dyn FnMut(&DFunc, &DFunc, &str) -> Fail) -> Fail {
    if let Some(x) = f(a, b, path) {
        return Some(x);
    }
    for (i, (p, q)) in a.protos.iter().zip(&b.protos).enumerate() {
        if let Some(x) = walk(p, q, &format!("{path}.{i}"), f) {
            return Some(x);
        }
    }
    None
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, path: &str, got: &T, want: &T) -> Fail {
    if got == want {
        None
    } else {
        let cut = |s: String| if s.len() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s };
        Some(format!("function {path}: {what}: got {} want {}", cut(format!("{got:?}")), cut(format!("{want:?}"))))
    }
}

fn show(v: &[Ins]) -> Vec<String> {
    v.iter().enumerate().map(|(i, x)| format!("{i}: {}", x.show(Ver::L51))).collect()
}

/// Absolute targets of all jumps: (position, target)
fn jumps(v: &[Ins]) -> Vec<(usize, i64)> {
    v.iter()
        .enumerate()
        .filter(|(_, i)| OPS51[i.op].1 == Mode::SBx)
        .map(|(p, i)| (p, p as i64 + 1 + i.x))
        .collect()
}

fn strings(d: &DFunc) -> Vec<Vec<u8>> {
    let f = &d.f;
    let mut v = vec![f.source.clone()];
    v.extend(f.consts.iter().filter_map(|k| if let Konst::Str(s) = k { Some(s.clone()) } else { None }));
    v.extend(f.locals.iter().map(|l| l.name.clone()));
    v.extend(f.upvals.iter().cloned());
    v
}

fn numbers(d: &DFunc) -> (Vec<Num>, Vec<i64>) {
    let f = &d.f;
    let n = f.consts.iter().filter_map(|k| if let Konst::Num(s) = k { Some(*s) } else { None }).collect();
    let mut i = vec![f.line, f.last_line];
    i.extend(f.locals.iter().flat_map(|l| [l.start, l.end]));
    (n, i)
}

/// Where an error of this kind belongs.
fn error_owner(e: &E) -> &'static [&'static str] {
    match e {
        E::FloatPrecisionLoss | E::IntegerOverflow => &["C05"],
        E::ValueTooBigForOperand | E::InvalidOpcode(_) => &["C07"],
        E::StackTooLarge(_) => &["C12"],
        E::UnexpectedForwardJump | E::InvalidJumpDestination => &["C10"],
        E::IncorrectSignature | E::UnsupportedVersion(_) => &["C02"],
        E::InvaildEndianness(_)
        | E::UnsupportedSizeTWidth(_)
        | E::UnsupportedIntegerWidth(_)
        | E::UnsupportedInstructionWidth(_)
        | E::UnsupportedNumberWidth(_) => &["C02", "C16"],
        E::UnsupportedInstructionFormat(_) => &["C16"],
        _ => &[],
    }
}

pub fn uses_setlist(d: &DFunc, v: Ver) -> bool {
    d.ins.iter().any(|i| ops(v)[i.op].0.starts_with("SETLIST"))
}

/// `None`: the property holds for this input.
pub fn check(prop: &str, c: &Case) -> Fail {
    if let Some(e) = c.set.rejected() {
        return if prop == "C08" || prop == "C01" && e.ends_with("panics") { Some(e) } else { None };
    }
    if prop == "C17" {
        return round_trip(c);
    }
    if prop == "C08" {
        return layouts(c).or_else(|| compare("C07", c));
    }
    compare(prop, c)
}

fn compare(prop: &str, c: &Case) -> Fail {
    let got = run(c);
    if prop == "C01" {
        return match got {
            Got::Panic(m) => Some(format!("panic: {m}")),
            _ => None,
        };
    }
    let want = reference::unify(&c.input, c.fmt, &c.set);
    let src = reference::read_header(&c.input, &c.set);
    let version = src.as_ref().ok().map(|s| s.0);
    let is50 = version == Some(Ver::L50);
    let (got, want) = match (got, want) {
        (Got::Err(g), Err(w)) => {
            if g == w {
                return None;
            }
            let mine = prop == "C03" || error_owner(&w).contains(&prop);
            return if mine { Some(format!("got error {g:?}, want error {w:?}")) } else { None };
        }
        (Got::Ok(_), Err(w)) => {
            let mine = prop == "C03" || error_owner(&w).contains(&prop);
            return if mine { Some(format!("got Ok, want error {w:?}")) } else { None };
        }
        (Got::Panic(m), Err(w)) => {
            let mine = prop == "C03" || error_owner(&w).contains(&prop);
            return if mine { Some(format!("got a panic ({m}), want error {w:?}")) } else { None };
        }
        (Got::Err(e), Ok(_)) => {
            let mine = match prop {
                "C16" => is50 && (error_owner(&e).contains(&"C16") || e == E::InputTooShort),
                "C14" | "C15" | "C09" | "C11" | "C13" | "C04" | "C06" => {
                    // the output this property is about was never produced
                    let relevant = match prop {
                        "C09" => is50,
                        _ => true,
                    };
                    relevant && error_owner(&e).is_empty() && !matches!(e, E::InvalidConstantType(_))
                        || prop == "C11" && matches!(e, E::InvalidConstantType(_))
                        || prop == "C15" && c.kind.contains("table")
                }
                "C03" => true,
                _ => error_owner(&e).contains(&prop),
            };
            return if mine { Some(format!("got error {e:?}, want Ok")) } else { None };
        }
        (Got::Panic(m), Ok(_)) => return Some(format!("got a panic ({m}), want Ok")),
        (Got::Ok(g), Ok(w)) => (g, w),
    };
    if got == want {
        // what the bytes mean is checked independently of how they came about
        return if prop == "C15" { constructors(c, &got) } else { None };
    }
    let (_, in_fmt, _) = src.unwrap();
    let identical = version == Some(Ver::L51)
        && in_fmt == c.fmt
        && c.set.l51 == c.set.out
        && c.input.starts_with(c.set.out.sig.as_bytes());
    let os = out_set(&c.set);
    let head = c.set.out.sig.len() + 8;
    if prop == "C02" {
        if identical {
            return Some("input that needs no conversion was changed".into());
        }
        if got.get(..head) != want.get(..head) {
            return eq("header", "-", &got.get(..head), &want.get(..head));
        }
        return None;
    }
    if got.get(..head) != want.get(..head) {
        // C02, but then nothing else can be compared with certainty
        return if prop == "C16" && is50 { eq("header", "-", &got.get(..head), &want.get(..head)) } else { None };
    }
    let want_d = decode(&want, &os);
    let (_, _, w) = match want_d {
        Ok(x) => x,
        Err(e) => {
            // the input was returned as it is, so there is nothing to look into
            return if identical { None } else { Some(format!("reference output does not decode: {e:?}")) };
        }
    };
    let g = match decode(&got, &os) {
        Ok((_, _, d)) => d,
        Err(e) => {
            return match prop {
                "C04" | "C05" | "C06" | "C07" | "C03" => Some(format!("the output is not a well-formed chunk: {e:?}")),
                _ => None,
            }
        }
    };
    if prop == "C16" && is50 {
        // wrong header detection shows in the numbers
        return walk(&g, &w, "main", &mut |a, b, p| {
            let k = |d: &DFunc| d.f.consts.clone();
            eq("constants", p, &k(a), &k(b))
        });
    }
    let kinds = |d: &DFunc| {
        d.f.consts
            .iter()
            .map(|k| match k {
                Konst::Nil => (0, false),
                Konst::Bool(b) => (1, *b),
                Konst::Num(_) => (3, false),
                Konst::Str(_) => (4, false),
            })
            .collect::<Vec<_>>()
    };
    let names = |d: &DFunc| d.ins.iter().map(|i| OPS51[i.op].0).collect::<Vec<_>>();
    if prop == "C15" {
        if let Some(x) = constructors(c, &got) {
            return Some(x);
        }
    }
    walk(&g, &w, "main", &mut |g, w, p| match prop {
        "C04" => eq("strings", p, &strings(g), &strings(w)),
        "C05" => eq("numbers", p, &numbers(g), &numbers(w)),
        "C06" => {
            let shape = |d: &DFunc| {
                let f = &d.f;
                (
                    (f.nups, f.params, f.line, f.last_line, d.protos.len()),
                    (f.locals.iter().map(|l| (l.name.clone(), l.start, l.end)).collect::<Vec<_>>(), f.upvals.clone(), f.source.clone()),
                )
            };
            eq("structure", p, &shape(g), &shape(w)).or_else(|| eq("constants", p, &kinds(g), &kinds(w))).or_else(|| {
                if is50 {
                    None
                } else {
                    eq("number of instructions", p, &g.ins.len(), &w.ins.len()).or_else(|| eq("vararg", p, &g.f.vararg, &w.f.vararg))
                }
            })
        }
        "C07" => {
            if names(g).len() == names(w).len() {
                let strip = |d: &DFunc| {
                    d.ins.iter().map(|i| if OPS51[i.op].1 == Mode::SBx && is50 { Ins { x: 0, ..*i } } else { *i }).collect::<Vec<_>>()
                };
                eq("instructions", p, &show(&strip(g)), &show(&strip(w)))
            } else if is50 {
                None
            } else {
                eq("instructions", p, &show(&g.ins), &show(&w.ins))
            }
        }
        "C09" => {
            if !is50 {
                return None;
            }
            let strip = |d: &DFunc| {
                d.ins.iter().map(|i| if OPS51[i.op].1 == Mode::SBx { Ins { x: 0, ..*i } } else { *i }).collect::<Vec<_>>()
            };
            eq("instructions", p, &show(&strip(g)), &show(&strip(w)))
        }
        "C10" => eq("jump targets", p, &jumps(&g.ins), &jumps(&w.ins)),
        "C11" => eq("constants", p, &g.f.consts, &w.f.consts).or_else(|| {
            let refs = |d: &DFunc| {
                d.ins
                    .iter()
                    .filter(|i| OPS51[i.op].1 == Mode::Bx || i.b.k || i.c.k)
                    .map(|i| (OPS51[i.op].0, i.x, if i.b.k { i.b.v } else { 0 }, if i.c.k { i.c.v } else { 0 }))
                    .collect::<Vec<_>>()
            };
            eq("constant references", p, &refs(g), &refs(w))
        }),
        "C12" => eq("maximum stack size", p, &g.f.maxstack, &w.f.maxstack),
        "C13" => eq("line info", p, &g.f.lines, &w.f.lines),
        "C14" => eq("vararg flag", p, &g.f.vararg, &w.f.vararg).or_else(|| {
            if is50 && w.f.vararg != 0 {
                let pre = |d: &DFunc| show(&d.ins[..d.ins.len().min(4)]);
                eq("preamble", p, &pre(g), &pre(w))
            } else {
                None
            }
        }),
        "C15" => {
            let lists = |d: &DFunc| d.ins.iter().filter(|i| OPS51[i.op].0 == "SETLIST").map(|i| i.show(Ver::L51)).collect::<Vec<_>>();
            let any = d_has_setlist(w);
            if any {
                eq("SETLIST instructions", p, &lists(g), &lists(w)).or_else(|| {
                    if c.kind.contains("table") {
                        eq("instructions", p, &show(&g.ins), &show(&w.ins))
                    } else {
                        None
                    }
                })
            } else {
                None
            }
        }
        _ => None,
    })
}

fn d_has_setlist(d: &DFunc) -> bool {
    uses_setlist(d, Ver::L51)
}

/// Executes table constructors before and after, and compares the tables.
fn constructors(c: &Case, got: &[u8]) -> Fail {
    if !c.kind.contains("table constructor") || c.kind.contains("mutated") {
        return None;
    }
    let (v, _, a) = decode(&c.input, &c.set).ok()?;
    let (_, _, b) = decode(got, &out_set(&c.set)).ok()?;
    let fpf = if v == Ver::L50 { c.set.l50.fpf } else { c.set.l51.fpf };
    let before = sem::exec(&a.ins, v, fpf)?;
    let after = sem::exec(&b.ins, Ver::L51, c.set.out.fpf);
    if after.as_ref() == Some(&before) {
        None
    } else {
        Some(format!(
            "the converted constructor builds a different table\nbefore: {}\nafter: {}",
            a.ins.iter().map(|i| i.show(v)).collect::<Vec<_>>().join("; "),
            show(&b.ins).join("; ")
        ))
    }
}

/// Whether `from_specification` agrees with the documented rules; the first
/// eight bytes of the input are the specification.
fn layouts(c: &Case) -> Fail {
    if c.kind != "layout" {
        return None;
    }
    let spec = spec_of(&c.input);
    let want = Lay::new(&spec);
    let got = catch_unwind(|| lunify::InstructionLayout::from_specification(spec_to_lunify(&spec)));
    match (got, want) {
        (Err(_), _) => Some(format!("from_specification({spec:?}) panics")),
        (Ok(Ok(_)), None) => Some(format!("from_specification({spec:?}) accepts an invalid layout")),
        (Ok(Err(e)), Some(_)) => Some(format!("from_specification({spec:?}) rejects a valid layout: {e:?}")),
        (Ok(Err(E::InvalidInstructionLayout)), None) => None,
        (Ok(Err(e)), None) => Some(format!("from_specification({spec:?}) fails with {e:?}")),
        (Ok(Ok(_)), Some(l)) => layout_words(&l),
    }
}

fn spec_of(d: &[u8]) -> Spec {
    let kinds = ['O', 'A', 'B', 'C'];
    [0, 1, 2, 3].map(|i| {
        let n = u64::from_le_bytes(d[i * 9 + 1..i * 9 + 9].try_into().unwrap());
        (kinds[d[i * 9] as usize % 4], n)
    })
}

/// What `from_specification` does with a case that is a layout.
pub fn layout_of(c: &Case) -> Option<String> {
    if c.kind != "layout" {
        return None;
    }
    let got = catch_unwind(|| lunify::InstructionLayout::from_specification(spec_to_lunify(&spec_of(&c.input))));
    Some(match got {
        Ok(Ok(_)) => "Ok".into(),
        Ok(Err(e)) => format!("Err {e:?}"),
        Err(_) => "panic".into(),
    })
}

/// Push instructions that fill every field through a layout.
fn layout_words(l: &Lay) -> Fail {
    let mut set = Set::std();
    set.l51.lay = *l;
    let wide = Lay::new(&[('C', 16), ('B', 16), ('O', 16), ('A', 16)]).unwrap();
    for (input, output) in [(*l, wide), (wide, *l), (std_lay51(), *l), (*l, *l)] {
        set.l51.lay = input;
        set.out.lay = output;
        let mut f = Func::empty();
        for (op, (_, mode, _)) in OPS51.iter().enumerate() {
            for k in 0..3u64 {
                let v = |s: Slot, salt: u64| match k {
                    0 => 0,
                    1 => s.max(),
                    _ => 0x5A5A_5A5A_5A5Au64.rotate_left((op as u64 * 7 + salt) as u32) & s.max(),
                };
                let mut w = input.op.put(op as u64) | input.a.put(v(input.a, 1));
                w |= match mode {
                    Mode::BC(..) => input.b.put(v(input.b, 2)) | input.c.put(v(input.c, 3)),
                    _ => input.bx.put(v(input.bx, 4)),
                };
                f.code = vec![w];
                let fmt = Fmt { ins: 8, ..STD };
                let c = Case { input: encode(Ver::L51, &f, fmt, &set), fmt: Fmt { little: false, ..fmt }, set: set.clone(), kind: "layout word".into() };
                let r = compare("C07", &c).or_else(|| compare("C03", &c)).or_else(|| compare("C02", &c));
                if let Some(x) = r {
                    return Some(format!("layout {:?} -> {:?}, {} word {w:#x}: {x}", input.spec, output.spec, OPS51[op].0));
                }
            }
        }
    }
    None
}

/// Convert to another format and back.
fn round_trip(c: &Case) -> Fail {
    let (v, in_fmt, _) = reference::read_header(&c.input, &c.set).ok()?;
    if v != Ver::L51 || c.set.l51.fpf != c.set.out.fpf {
        return None;
    }
    // only demanded if everything fits into the other format
    let there_want = reference::unify(&c.input, c.fmt, &c.set).ok()?;
    let back_set = Set { l50: c.set.out.clone(), l51: c.set.out.clone(), out: c.set.l51.clone() };
    let back_want = reference::unify(&there_want, in_fmt, &back_set).ok()?;
    if back_want != c.input {
        return None;
    }
    let there = match run(c) {
        Got::Ok(x) => x,
        other => return Some(format!("converting fails: {other:?}")),
    };
    let back = Case { input: there, fmt: in_fmt, set: back_set, kind: "back".into() };
    match run(&back) {
        Got::Ok(x) if x == c.input => None,
        Got::Ok(x) => {
            let at = x.iter().zip(&c.input).position(|(a, b)| a != b).unwrap_or(x.len().min(c.input.len()));
            Some(format!("converting to another format and back differs from byte {at} on (lengths {} and {})", x.len(), c.input.len()))
        }
        other => Some(format!("converting back fails: {other:?}")),
    }
}
