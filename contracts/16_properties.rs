/// C06 and C17: what is written is read back as the same tree of functions.
pub mod prop_c17 {
use vstd::prelude::*;
use crate::vx::*;
use crate::prop_bytes::*;
use crate::number::*;
use crate::format::*;
use crate::function::*;
use crate::function::instruction::*;
use crate::function::instruction::interface::LuaInstruction;
use crate::function::instruction::operand::layout::*;
use crate::*;

// A function `r` that was written in the format `f`, and the function `x` that
// is read from it with the settings `s`.

pub open spec fn few(n: nat) -> bool { n <= 0x7fff_ffff_ffff_ffff }
/// Strings hold bytes, and lists can be counted: true for everything that was
/// read, and for everything that fits into memory.
pub open spec fn proper_constant(c: Const) -> bool { c matches Const::String(s) ==> byte_string(s) }
pub open spec fn proper(r: Fun) -> bool
    decreases r
{
    &&& byte_string(r.source)
    &&& few(r.instructions.len()) && few(r.constants.len()) && few(r.functions.len()) && few(r.lines.len()) && few(r.locals.len()) && few(r.upvalues.len())
    &&& forall|i: int| 0 <= i < r.constants.len() ==> proper_constant(#[trigger] r.constants[i])
    &&& forall|i: int| 0 <= i < r.locals.len() ==> byte_string((#[trigger] r.locals[i]).name)
    &&& forall|i: int| 0 <= i < r.upvalues.len() ==> byte_string(#[trigger] r.upvalues[i])
    &&& forall|i: int| 0 <= i < r.functions.len() ==> proper(#[trigger] r.functions[i])
}
/// The constant that is stored for `c` (C05).
pub open spec fn stored_constant(c: Const, f: Format) -> Const { match c { Const::Number(n) => Const::Number(stored(n, f)), _ => c } }
/// The word `x` that is written for a word `w` (C07).
pub open spec fn recoded(w: u64, x: u64, s: crate::Settings) -> bool {
    decode51(w, s, s.lua51.layout) matches Ok(i) && encode51(i, s) == Ok::<u64, LunifyError>(x)
}
/// C06: the same function, with its words in the layout of the output.
pub open spec fn related(r: Fun, x: Fun, f: Format, s: crate::Settings) -> bool
    decreases r
{
    &&& x.source == r.source && x.line_defined == r.line_defined && x.last_line_defined == r.last_line_defined
    &&& x.upvalue_count == r.upvalue_count && x.parameter_count == r.parameter_count && x.is_variadic == r.is_variadic && x.maximum_stack_size == r.maximum_stack_size
    &&& x.lines == r.lines && x.locals == r.locals && x.upvalues == r.upvalues
    &&& x.instructions.len() == r.instructions.len() && forall|i: int| 0 <= i < r.instructions.len() ==> recoded(#[trigger] r.instructions[i], x.instructions[i], s)
    &&& x.constants.len() == r.constants.len() && forall|i: int| 0 <= i < r.constants.len() ==> x.constants[i] == stored_constant(#[trigger] r.constants[i], f)
    &&& x.functions.len() == r.functions.len() && forall|i: int| 0 <= i < r.functions.len() ==> related(#[trigger] r.functions[i], x.functions[i], f, s)
}

/// What `p` reads from the bytes of an item `x`.
pub open spec fn reads_back<T, U>(d: Seq<u8>, x: T, w: spec_fn(T) -> Written, p: spec_fn(int) -> Parse<U>, rel: spec_fn(T, U) -> bool) -> bool {
    w(x) is Ok ==> forall|o: int| #[trigger] at(d, o, w(x)->Ok_0) ==> (p(o) matches Ok((u, q)) ==> q == o + w(x)->Ok_0.len() && rel(x, u))
}
pub open spec fn all_related<T, U>(s: Seq<T>, v: Seq<U>, n: int, rel: spec_fn(T, U) -> bool) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> rel(#[trigger] s[i], v[i]) }
proof fn lemma_many_back<T, U>(d: Seq<u8>, o: int, s: Seq<T>, n: int, w: spec_fn(T) -> Written, p: spec_fn(int) -> Parse<U>, rel: spec_fn(T, U) -> bool)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> reads_back(d, #[trigger] s[i], w, p, rel)
    ensures w_many(s, n, w) matches Ok(b) ==> at(d, o, b) ==> (p_many(o, n, p) matches Ok((v, q)) ==> q == o + b.len() && all_related(s, v, n, rel))
    decreases n
{
    if n > 0 {
        lemma_many_back(d, o, s, n - 1, w, p, rel);
        match w_many(s, n, w) {
            Ok(b) => {
                let x = w_many(s, n - 1, w)->Ok_0;
                let y = w(s[n - 1])->Ok_0;
                assert(b == x + y);
                lemma_at(d, o, x, y);
                assert(reads_back(d, s[n - 1], w, p, rel));
                if at(d, o, b) { assert(at(d, (o + x.len()) as int, y)); }
            },
            Err(_) => {},
        }
    }
}
proof fn lemma_list_back<T, U>(d: Seq<u8>, o: int, s: Seq<T>, f: Format, w: spec_fn(T) -> Written, p: spec_fn(int) -> Parse<U>, rel: spec_fn(T, U) -> bool)
    requires few(s.len()), forall|i: int| 0 <= i < s.len() ==> reads_back(d, #[trigger] s[i], w, p, rel)
    ensures w_list(s, f, w) matches Ok(b) ==> at(d, o, b) ==> (p_list(d, o, f, p) matches Ok((v, q)) ==> q == o + b.len() && all_related(s, v, s.len() as int, rel))
{
    hide(w_many); hide(p_many); hide(all_related);
    let n = s.len() as i64;
    match w_list(s, f, w) {
        Ok(b) => {
            let x = w_integer(n, f)->Ok_0;
            let y = w_many(s, s.len() as int, w)->Ok_0;
            assert(b == x + y);
            lemma_at(d, o, x, y);
            prop_c05_integer(n, f.integer_width, f.endianness, d, o);
            if at(d, o, b) { lemma_many_back(d, (o + x.len()) as int, s, s.len() as int, w, p, rel); }
        },
        Err(_) => {},
    }
}
proof fn lemma_constant_back(d: Seq<u8>, c: Const, o: int, f: Format)
    requires proper_constant(c)
    ensures w_constant(c, f) matches Ok(b) ==> at(d, o, b) ==> p_constant(d, o, f) == Ok::<(Const, int), LunifyError>((stored_constant(c, f), (o + b.len()) as int))
{
    hide(w_number); hide(p_number); hide(w_string); hide(p_string); hide(stored);
    match w_constant(c, f) {
        Ok(b) => if at(d, o, b) {
            match c {
                Const::Nil => { assert(d[o + 0] == b[0]); },
                Const::Boolean(_) => { assert(d[o + 0] == b[0]); assert(d[o + 1] == b[1]); },
                Const::Number(n) => { let y = w_number(n, f)->Ok_0; assert(b == seq![3u8] + y); lemma_at(d, o, seq![3u8], y); assert(d[o + 0] == seq![3u8][0]); prop_c05_number(n, f, d, o + 1); },
                Const::String(s) => { let y = w_string(s, f)->Ok_0; assert(b == seq![4u8] + y); lemma_at(d, o, seq![4u8], y); assert(d[o + 0] == seq![4u8][0]); lemma_string(s, f, d, o + 1); },
            }
        },
        Err(_) => {},
    }
}
proof fn lemma_local_back(d: Seq<u8>, l: Loc, o: int, f: Format)
    requires byte_string(l.name)
    ensures w_local(l, f) matches Ok(b) ==> at(d, o, b) ==> p_local(d, o, f) == Ok::<(Loc, int), LunifyError>((l, (o + b.len()) as int))
{
    hide(w_string); hide(p_string);
    match w_local(l, f) {
        Ok(b) => {
            let x = w_string(l.name, f)->Ok_0; let y = w_integer(l.start, f)->Ok_0; let z = w_integer(l.end, f)->Ok_0;
            assert(b == (x + y) + z);
            lemma_at(d, o, x + y, z); lemma_at(d, o, x, y);
            lemma_string(l.name, f, d, o);
            prop_c05_integer(l.start, f.integer_width, f.endianness, d, (o + x.len()) as int);
            prop_c05_integer(l.end, f.integer_width, f.endianness, d, (o + (x + y).len()) as int);
        },
        Err(_) => {},
    }
}
proof fn lemma_word_back(d: Seq<u8>, w: u64, o: int, f: Format, s: crate::Settings)
    ensures w_instruction(w, f) matches Ok(b) ==> at(d, o, b) ==> (instruction_item::<lua51::Instruction>(d, f, s, s.lua51.layout)(o) matches Ok((i, q)) ==> q == o + b.len() && decode51(w, s, s.lua51.layout) == Ok::<lua51::Instruction, LunifyError>(i))
{
    hide(w_instruction); hide(p_instruction); hide(decode51);
    prop_c05_word(w, f, d, o);
    let l = s.lua51.layout;
    assert(decoder::<lua51::Instruction>(s, l)(w) == decode51(w, s, l));
}

spec fn same<T>() -> spec_fn(T, T) -> bool { |a: T, b: T| a == b }
spec fn decodes(s: crate::Settings) -> spec_fn(u64, lua51::Instruction) -> bool { |w: u64, i: lua51::Instruction| decode51(w, s, s.lua51.layout) == Ok::<lua51::Instruction, LunifyError>(i) }
spec fn stores(f: Format) -> spec_fn(Const, Const) -> bool { |c: Const, k: Const| k == stored_constant(c, f) }
proof fn lemma_same<T>(s: Seq<T>, v: Seq<T>)
    ensures all_related(s, v, s.len() as int, same::<T>()) ==> v == s
{ if all_related(s, v, s.len() as int, same::<T>()) { assert forall|i: int| 0 <= i < s.len() implies v[i] == s[i] by { assert(same::<T>()(s[i], v[i])); } assert(v =~= s); } }
proof fn lemma_lines_back(d: Seq<u8>, o: int, r: Seq<i64>, f: Format)
    requires few(r.len())
    ensures w_list(r, f, w_line_item(f)) matches Ok(b) ==> at(d, o, b) ==> (p_lines(d, o, f) matches Ok((v, q)) ==> q == o + b.len() && v == r)
{
    hide(w_list); hide(p_list); hide(w_integer); hide(p_integer); hide(all_related);
    let (w, p) = (w_line_item(f), integer_item(d, f));
    assert forall|i: int| 0 <= i < r.len() implies reads_back(d, #[trigger] r[i], w, p, same::<i64>()) by {
        let x = r[i];
        assert forall|o: int| w(x) is Ok implies (#[trigger] at(d, o, w(x)->Ok_0) ==> (p(o) matches Ok((u, q)) ==> q == o + w(x)->Ok_0.len() && same::<i64>()(x, u))) by { reveal(w_integer); reveal(p_integer); prop_c05_integer(x, f.integer_width, f.endianness, d, o); }
    }
    lemma_list_back(d, o, r, f, w, p, same::<i64>());
    match p_lines(d, o, f) { Ok((v, q)) => { lemma_same(r, v); }, Err(_) => {} }
}
proof fn lemma_upvalues_back(d: Seq<u8>, o: int, r: Seq<Seq<char>>, f: Format)
    requires few(r.len()), forall|i: int| 0 <= i < r.len() ==> byte_string(#[trigger] r[i])
    ensures w_list(r, f, w_string_item(f)) matches Ok(b) ==> at(d, o, b) ==> (p_upvalues(d, o, f) matches Ok((v, q)) ==> q == o + b.len() && v == r)
{
    hide(w_list); hide(p_list); hide(w_string); hide(p_string); hide(all_related);
    let (w, p) = (w_string_item(f), string_item(d, f));
    assert forall|i: int| 0 <= i < r.len() implies reads_back(d, #[trigger] r[i], w, p, same::<Seq<char>>()) by {
        let x = r[i];
        assert forall|o: int| w(x) is Ok implies (#[trigger] at(d, o, w(x)->Ok_0) ==> (p(o) matches Ok((u, q)) ==> q == o + w(x)->Ok_0.len() && same::<Seq<char>>()(x, u))) by { lemma_string(x, f, d, o); }
    }
    lemma_list_back(d, o, r, f, w, p, same::<Seq<char>>());
    match p_upvalues(d, o, f) { Ok((v, q)) => { lemma_same(r, v); }, Err(_) => {} }
}
proof fn lemma_locals_back(d: Seq<u8>, o: int, r: Seq<Loc>, f: Format)
    requires few(r.len()), forall|i: int| 0 <= i < r.len() ==> byte_string((#[trigger] r[i]).name)
    ensures w_list(r, f, w_local_item(f)) matches Ok(b) ==> at(d, o, b) ==> (p_locals(d, o, f) matches Ok((v, q)) ==> q == o + b.len() && v == r)
{
    hide(w_list); hide(p_list); hide(w_local); hide(p_local); hide(all_related);
    let (w, p) = (w_local_item(f), local_item(d, f));
    assert forall|i: int| 0 <= i < r.len() implies reads_back(d, #[trigger] r[i], w, p, same::<Loc>()) by {
        let x = r[i];
        assert forall|o: int| w(x) is Ok implies (#[trigger] at(d, o, w(x)->Ok_0) ==> (p(o) matches Ok((u, q)) ==> q == o + w(x)->Ok_0.len() && same::<Loc>()(x, u))) by { lemma_local_back(d, x, o, f); }
    }
    lemma_list_back(d, o, r, f, w, p, same::<Loc>());
    match p_locals(d, o, f) { Ok((v, q)) => { lemma_same(r, v); }, Err(_) => {} }
}
proof fn lemma_constants_back(d: Seq<u8>, o: int, r: Seq<Const>, f: Format)
    requires few(r.len()), forall|i: int| 0 <= i < r.len() ==> proper_constant(#[trigger] r[i])
    ensures w_list(r, f, w_constant_item(f)) matches Ok(b) ==> at(d, o, b) ==> (p_constants(d, o, f) matches Ok((v, q)) ==> q == o + b.len() && all_related(r, v, r.len() as int, stores(f)))
{
    hide(w_list); hide(p_list); hide(w_constant); hide(p_constant); hide(all_related);
    let (w, p) = (w_constant_item(f), constant_item(d, f));
    assert forall|i: int| 0 <= i < r.len() implies reads_back(d, #[trigger] r[i], w, p, stores(f)) by {
        let x = r[i];
        assert forall|o: int| w(x) is Ok implies (#[trigger] at(d, o, w(x)->Ok_0) ==> (p(o) matches Ok((u, q)) ==> q == o + w(x)->Ok_0.len() && stores(f)(x, u))) by { lemma_constant_back(d, x, o, f); }
    }
    lemma_list_back(d, o, r, f, w, p, stores(f));
}
proof fn lemma_words_back(d: Seq<u8>, o: int, r: Seq<u64>, f: Format, s: crate::Settings)
    requires few(r.len())
    ensures w_list(r, f, w_word_item(f)) matches Ok(b) ==> at(d, o, b) ==> (p_instructions::<lua51::Instruction>(d, o, f, s, s.lua51.layout) matches Ok((v, q)) ==> q == o + b.len() && all_related(r, v, r.len() as int, decodes(s)))
{
    hide(w_list); hide(p_list); hide(w_instruction); hide(p_decode); hide(all_related); hide(decode51);
    let (w, p) = (w_word_item(f), instruction_item::<lua51::Instruction>(d, f, s, s.lua51.layout));
    assert forall|i: int| 0 <= i < r.len() implies reads_back(d, #[trigger] r[i], w, p, decodes(s)) by {
        let x = r[i];
        assert forall|o: int| w(x) is Ok implies (#[trigger] at(d, o, w(x)->Ok_0) ==> (p(o) matches Ok((u, q)) ==> q == o + w(x)->Ok_0.len() && decodes(s)(x, u))) by { lemma_word_back(d, x, o, f, s); }
    }
    lemma_list_back(d, o, r, f, w, p, decodes(s));
}
proof fn lemma_head_back(d: Seq<u8>, o: int, r: Fun, f: Format)
    requires byte_string(r.source)
    ensures w_head(r, f) matches Ok(b) ==> at(d, o, b) ==> p_head(d, o, f, LuaVersion::Lua51) == Ok::<(Head, int), LunifyError>((Head { source: r.source, line_defined: r.line_defined, last_line_defined: r.last_line_defined,
        upvalue_count: r.upvalue_count, parameter_count: r.parameter_count, is_variadic: r.is_variadic, maximum_stack_size: r.maximum_stack_size }, (o + b.len()) as int))
{
    hide(w_string); hide(p_string);
    match w_head(r, f) {
        Ok(b) => {
            let x = w_string(r.source, f)->Ok_0; let y = w_integer(r.line_defined, f)->Ok_0; let z = w_integer(r.last_line_defined, f)->Ok_0;
            let u = seq![r.upvalue_count, r.parameter_count, r.is_variadic, r.maximum_stack_size];
            assert(b == ((x + y) + z) + u);
            lemma_at(d, o, (x + y) + z, u); lemma_at(d, o, x + y, z); lemma_at(d, o, x, y);
            lemma_string(r.source, f, d, o);
            prop_c05_integer(r.line_defined, f.integer_width, f.endianness, d, (o + x.len()) as int);
            prop_c05_integer(r.last_line_defined, f.integer_width, f.endianness, d, (o + (x + y).len()) as int);
            if at(d, o, b) { let q = (o + (x + y + z).len()) as int; assert(d[q + 0] == u[0] && d[q + 1] == u[1] && d[q + 2] == u[2] && d[q + 3] == u[3]); }
        },
        Err(_) => {},
    }
}
proof fn lemma_encoded(i: Seq<lua51::Instruction>, n: int, s: crate::Settings)
    requires 0 <= n <= i.len()
    ensures encode_all(i, n, s) matches Ok(w) ==> w.len() == n && forall|j: int| 0 <= j < n ==> encode51(i[j], s) == Ok::<u64, LunifyError>(#[trigger] w[j])
    decreases n
{
    hide(encode51);
    if n > 0 { lemma_encoded(i, n - 1, s); assert(i[n - 1].vx_encode(s) == encode51(i[n - 1], s)); }
}
spec fn related_functions(r: Seq<Fun>, v: Seq<Fun>, n: int, f: Format, s: crate::Settings) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> related(#[trigger] r[i], v[i], f, s) }
proof fn lemma_functions_n_step(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int, n: int)
    ensures
        n > 0 && depth <= 200 ==> p_functions_n(d, o, f, v, s, depth, n) == (match p_functions_n(d, o, f, v, s, depth, n - 1) { Err(e) => Err(e), Ok((fs, o)) =>
            match p_function(d, o, f, v, s, depth + 1) { Err(e) => Err(e), Ok((x, o)) => Ok((fs.push(x), o)) } }),
        n <= 0 ==> p_functions_n(d, o, f, v, s, depth, n) == Ok::<(Seq<Fun>, int), LunifyError>((Seq::empty(), o))
{}
proof fn lemma_w_functions_n(x: Fun, n: int, f: Format)
    ensures
        0 < n <= x.functions.len() ==> w_functions(x, n, f) == cat(w_functions(x, n - 1, f), w_function(x.functions[n - 1], f)),
        n <= 0 ==> w_functions(x, n, f) == Ok::<Seq<u8>, LunifyError>(Seq::empty())
{}
proof fn lemma_functions_n_back(r: Fun, n: int, d: Seq<u8>, o: int, f: Format, s: crate::Settings, depth: int)
    requires proper(r), s.lua51.fields_per_flush == s.output.fields_per_flush, 0 <= n <= r.functions.len(), depth <= 200
    ensures w_functions(r, n, f) matches Ok(b) ==> at(d, o, b) ==> (p_functions_n(d, o, f, LuaVersion::Lua51, s, depth, n) matches Ok((v, q)) ==> q == o + b.len() && related_functions(r.functions, v, n, f, s))
    decreases r, 0int, n
{
    hide(w_function); hide(w_functions); hide(p_function); hide(p_functions_n); hide(related);
    lemma_functions_n_step(d, o, f, LuaVersion::Lua51, s, depth, n);
    lemma_w_functions_n(r, n, f);
    if n > 0 {
        lemma_functions_n_back(r, n - 1, d, o, f, s, depth);
        match w_functions(r, n, f) {
            Ok(b) => {
                let x = w_functions(r, n - 1, f)->Ok_0; let y = w_function(r.functions[n - 1], f)->Ok_0;
                assert(b == x + y);
                lemma_at(d, o, x, y);
                assert(proper(r.functions[n - 1]));
                if at(d, o, b) { lemma_function_back(r.functions[n - 1], d, (o + x.len()) as int, f, s, depth + 1); }
            },
            Err(_) => {},
        }
    }
}
proof fn lemma_functions_back(r: Fun, d: Seq<u8>, o: int, f: Format, s: crate::Settings, depth: int)
    requires proper(r), s.lua51.fields_per_flush == s.output.fields_per_flush, depth <= 200
    ensures cat(w_integer(r.functions.len() as i64, f), w_functions(r, r.functions.len() as int, f)) matches Ok(b) ==> at(d, o, b) ==>
        (p_functions(d, o, f, LuaVersion::Lua51, s, depth) matches Ok((v, q)) ==> q == o + b.len() && related_functions(r.functions, v, r.functions.len() as int, f, s))
    decreases r, 1int, 0int
{
    hide(w_function); hide(w_functions); hide(p_functions); hide(p_functions_n); hide(related_functions);
    lemma_functions_empty(d, o, f, LuaVersion::Lua51, s, depth);
    let n = r.functions.len() as i64;
    match cat(w_integer(n, f), w_functions(r, r.functions.len() as int, f)) {
        Ok(b) => {
            let x = w_integer(n, f)->Ok_0; let y = w_functions(r, r.functions.len() as int, f)->Ok_0;
            assert(b == x + y);
            lemma_at(d, o, x, y);
            prop_c05_integer(n, f.integer_width, f.endianness, d, o);
            if at(d, o, b) { lemma_functions_n_back(r, r.functions.len() as int, d, (o + x.len()) as int, f, s, depth); }
        },
        Err(_) => {},
    }
}
/// C06: what is written for a function is read back as this function.
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_function_back(r: Fun, d: Seq<u8>, o: int, f: Format, s: crate::Settings, depth: int)
    requires proper(r), s.lua51.fields_per_flush == s.output.fields_per_flush
    ensures w_function(r, f) matches Ok(b) ==> at(d, o, b) ==> (p_function(d, o, f, LuaVersion::Lua51, s, depth) matches Ok((x, q)) ==> q == o + b.len() && related(r, x, f, s))
    decreases r, 2int, 0int
{
    hide(w_function); hide(w_head); hide(w_list); hide(p_head); hide(p_lines); hide(p_locals); hide(p_upvalues); hide(p_constants); hide(p_instructions); hide(p_functions); hide(p_function); hide(w_functions); hide(w_integer);
    hide(decode51); hide(encode51); hide(encode_all); hide(at);
    lemma_function_step(d, o, f, LuaVersion::Lua51, s, depth);
    lemma_w_function_step(r, f);
    if w_function(r, f) is Ok && at(d, o, w_function(r, f)->Ok_0) && p_function(d, o, f, LuaVersion::Lua51, s, depth) is Ok {
        let (x, q) = p_function(d, o, f, LuaVersion::Lua51, s, depth)->Ok_0;
        let b0 = w_head(r, f)->Ok_0;
        let b1 = w_list(r.instructions, f, w_word_item(f))->Ok_0;
        let b2 = w_list(r.constants, f, w_constant_item(f))->Ok_0;
        let b3 = cat(w_integer(r.functions.len() as i64, f), w_functions(r, r.functions.len() as int, f))->Ok_0;
        let b4 = w_list(r.lines, f, w_line_item(f))->Ok_0;
        let b5 = w_list(r.locals, f, w_local_item(f))->Ok_0;
        let b6 = w_list(r.upvalues, f, w_string_item(f))->Ok_0;
        let b = w_function(r, f)->Ok_0;
        assert(b == (((((b0 + b1) + b2) + b3) + b4) + b5) + b6);
        lemma_at(d, o, ((((b0 + b1) + b2) + b3) + b4) + b5, b6);
        lemma_at(d, o, (((b0 + b1) + b2) + b3) + b4, b5);
        lemma_at(d, o, ((b0 + b1) + b2) + b3, b4);
        lemma_at(d, o, (b0 + b1) + b2, b3);
        lemma_at(d, o, b0 + b1, b2);
        lemma_at(d, o, b0, b1);
        let o1 = (o + b0.len()) as int; let o2 = (o1 + b1.len()) as int; let o3 = (o2 + b2.len()) as int; let o4 = (o3 + b3.len()) as int; let o5 = (o4 + b4.len()) as int; let o6 = (o5 + b5.len()) as int;
        assert(at(d, o, b0) && at(d, o1, b1) && at(d, o2, b2) && at(d, o3, b3) && at(d, o4, b4) && at(d, o5, b5) && at(d, o6, b6));
        lemma_head_back(d, o, r, f);
        lemma_words_back(d, o1, r.instructions, f, s);
        lemma_constants_back(d, o2, r.constants, f);
        lemma_functions_back(r, d, o3, f, s, depth);
        lemma_lines_back(d, o4, r.lines, f);
        lemma_locals_back(d, o5, r.locals, f);
        lemma_upvalues_back(d, o6, r.upvalues, f);
        let i = p_instructions::<lua51::Instruction>(d, o1, f, s, s.lua51.layout)->Ok_0.0;
        let k = p_constants(d, o2, f)->Ok_0.0;
        let v = p_functions(d, o3, f, LuaVersion::Lua51, s, depth)->Ok_0.0;
        assert(x.constants == k && x.functions == v);
        lemma_encoded(i, i.len() as int, s);
        assert(encode_all(i, i.len() as int, s) == Ok::<Seq<u64>, LunifyError>(x.instructions));
        assert forall|j: int| 0 <= j < r.instructions.len() implies recoded(#[trigger] r.instructions[j], x.instructions[j], s) by { assert(decodes(s)(r.instructions[j], i[j])); }
        assert forall|j: int| 0 <= j < r.constants.len() implies x.constants[j] == stored_constant(#[trigger] r.constants[j], f) by { assert(stores(f)(r.constants[j], k[j])); }
        assert forall|j: int| 0 <= j < r.functions.len() implies related(#[trigger] r.functions[j], x.functions[j], f, s) by {}
    }
}
/// Nothing is lost when `r` goes from format `f` to `g` with the settings `s`
/// and back with `t`: its numbers have a value in both, and the bits of its
/// words that no operand uses are zero.
pub open spec fn lossless(r: Fun, f: Format, g: Format, s: crate::Settings, t: crate::Settings) -> bool
    decreases r
{
    &&& forall|i: int| 0 <= i < r.constants.len() ==> ((#[trigger] r.constants[i]) matches Const::Number(n) ==> w_number(stored(stored(n, f), g), f) == w_number(n, f))
    &&& forall|i: int| 0 <= i < r.instructions.len() ==> (decode51(#[trigger] r.instructions[i], s, s.lua51.layout) matches Ok(x) ==> encode51(x, t) == Ok::<u64, LunifyError>(r.instructions[i]))
    &&& forall|i: int| 0 <= i < r.functions.len() ==> lossless(#[trigger] r.functions[i], f, g, s, t)
}
proof fn lemma_proper(r: Fun, x: Fun, f: Format, s: crate::Settings)
    requires proper(r), related(r, x, f, s)
    ensures proper(x)
    decreases r
{
    hide(recoded); hide(byte_string); hide(stored);
    assert forall|i: int| 0 <= i < x.constants.len() implies proper_constant(#[trigger] x.constants[i]) by { assert(proper_constant(r.constants[i])); }
    assert forall|i: int| 0 <= i < x.functions.len() implies proper(#[trigger] x.functions[i]) by { assert(related(r.functions[i], x.functions[i], f, s)); lemma_proper(r.functions[i], x.functions[i], f, s); }
}
proof fn lemma_many_same<T>(a: Seq<T>, b: Seq<T>, n: int, w: spec_fn(T) -> Written)
    requires a.len() == b.len(), n <= a.len(), forall|i: int| 0 <= i < a.len() ==> w(#[trigger] a[i]) == w(b[i])
    ensures w_many(a, n, w) == w_many(b, n, w)
    decreases n
{ if n > 0 { lemma_many_same(a, b, n - 1, w); assert(w(a[n - 1]) == w(b[n - 1])); } }
proof fn lemma_functions_same(a: Fun, b: Fun, n: int, f: Format)
    requires a.functions.len() == b.functions.len(), 0 <= n <= a.functions.len(), forall|i: int| 0 <= i < a.functions.len() ==> w_function(#[trigger] a.functions[i], f) == w_function(b.functions[i], f)
    ensures w_functions(a, n, f) == w_functions(b, n, f)
    decreases n
{
    hide(w_function); hide(w_functions);
    lemma_w_functions_n(a, n, f); lemma_w_functions_n(b, n, f);
    if n > 0 { lemma_functions_same(a, b, n - 1, f); assert(w_function(a.functions[n - 1], f) == w_function(b.functions[n - 1], f)); }
}
#[verifier::spinoff_prover]
proof fn lemma_twice(r: Fun, x: Fun, y: Fun, f: Format, g: Format, s: crate::Settings, t: crate::Settings)
    requires related(r, x, f, s), related(x, y, g, t), lossless(r, f, g, s, t), layout_wf(s.output.layout), t.lua51.layout == s.output.layout
    ensures w_function(y, f) == w_function(r, f)
    decreases r
{
    hide(decode51); hide(encode51); hide(w_list); hide(w_function); hide(w_functions); hide(w_number); hide(stored); hide(w_string); hide(w_instruction); hide(w_integer);
    assert forall|i: int| 0 <= i < r.instructions.len() implies r.instructions[i] == #[trigger] y.instructions[i] by {
        let w = r.instructions[i];
        assert(recoded(w, x.instructions[i], s)); assert(recoded(x.instructions[i], y.instructions[i], t));
        prop_c07_again(decode51(w, s, s.lua51.layout)->Ok_0, s, t);
    }
    assert(y.instructions =~= r.instructions);
    assert forall|i: int| 0 <= i < r.constants.len() implies w_constant_item(f)(#[trigger] r.constants[i]) == w_constant_item(f)(y.constants[i]) by {
        assert(x.constants[i] == stored_constant(r.constants[i], f)); assert(y.constants[i] == stored_constant(x.constants[i], g));
    }
    lemma_many_same(r.constants, y.constants, r.constants.len() as int, w_constant_item(f));
    assert(w_list(r.constants, f, w_constant_item(f)) == w_list(y.constants, f, w_constant_item(f))) by { reveal(w_list); }
    assert forall|i: int| 0 <= i < r.functions.len() implies w_function(#[trigger] r.functions[i], f) == w_function(y.functions[i], f) by {
        assert(related(r.functions[i], x.functions[i], f, s)); assert(related(x.functions[i], y.functions[i], g, t));
        lemma_twice(r.functions[i], x.functions[i], y.functions[i], f, g, s, t);
    }
    lemma_functions_same(r, y, r.functions.len() as int, f);
    lemma_w_function_step(r, f); lemma_w_function_step(y, f);
}
proof fn prop_c07_again(i: lua51::Instruction, s: crate::Settings, t: crate::Settings)
    requires layout_wf(s.output.layout), t.lua51.layout == s.output.layout
    ensures encode51(i, s) matches Ok(w) ==> decode51(w, t, t.lua51.layout) == Ok::<lua51::Instruction, LunifyError>(i)
{ hide(decode51); hide(encode51); crate::prop_c07::prop_c07(i, s, t, s.output.layout); }
proof fn lemma_header_back(d: Seq<u8>, f: Format, s: crate::Settings, t: crate::Settings)
    requires
        p_signature(d, s) == Ok::<((), int), LunifyError>(((), t.output.binary_signature.spec_bytes().len() as int)),
        at(d, 0, w_header(f, t))
    ensures p_header(d, s) == Ok::<((LuaVersion, Format), int), LunifyError>(((LuaVersion::Lua51, f), w_header(f, t).len() as int))
{
    hide(p_signature);
    let h = w_header(f, t);
    let n = t.output.binary_signature.spec_bytes().len() as int;
    assert forall|i: int| 0 <= i < h.len() implies d[i] == #[trigger] h[i] by { assert(d[0 + i] == h[i]); }
    let b = header_bytes(f);
    assert(h[n] == 0x51);
    assert(h[n + 1] == b[0] && h[n + 2] == b[1] && h[n + 3] == b[2] && h[n + 4] == b[3] && h[n + 5] == b[4] && h[n + 6] == b[5] && h[n + 7] == b[6]);
}
/// C17: `d` is the Lua 5.1 chunk of the function `r` in the format `f`. If it is
/// converted to `g` and back and nothing is lost, the result is `d`.
pub proof fn prop_c17(d: Seq<u8>, r: Fun, f: Format, g: Format, s: crate::Settings, t: crate::Settings)
    requires
        proper(r), layout_wf(s.output.layout),
        // the settings of the way back are those of the way there, and opposite
        settings_eq(s.lua51, t.output), settings_eq(t.lua51, s.output), s.lua51.fields_per_flush == s.output.fields_per_flush,
        w_function(r, f) matches Ok(b) && d == w_header(f, t) + b,
        lossless(r, f, g, s, t),
    ensures spec_unify(d, g, s) matches Ok(e) ==> {
        p_signature(d, s) == Ok::<((), int), LunifyError>(((), t.output.binary_signature.spec_bytes().len() as int)) && p_signature(e, t) == Ok::<((), int), LunifyError>(((), s.output.binary_signature.spec_bytes().len() as int))
        ==> (spec_unify(e, f, t) matches Ok(z) ==> z == d)
    }
{
    hide(p_function); hide(w_function); hide(p_header); hide(p_signature); hide(header_bytes); hide(related); hide(lossless); hide(proper); hide(decode51); hide(encode51);
    match spec_unify(d, g, s) {
        Ok(e) => if p_signature(d, s) == Ok::<((), int), LunifyError>(((), t.output.binary_signature.spec_bytes().len() as int)) && p_signature(e, t) == Ok::<((), int), LunifyError>(((), s.output.binary_signature.spec_bytes().len() as int)) {
            let b = w_function(r, f)->Ok_0;
            let h = w_header(f, t);
            assert(at(d, 0, d));
            lemma_at(d, 0, h, b);
            lemma_header_back(d, f, s, t);
            ax_str_same(s.lua51.binary_signature, t.output.binary_signature); ax_str_same(t.lua51.binary_signature, s.output.binary_signature); ax_str_same(s.lua51.binary_signature, s.output.binary_signature);
            ax_str_same(t.lua51.binary_signature, t.output.binary_signature);
            assert(d.subrange(0, t.output.binary_signature.spec_bytes().len() as int) =~= t.output.binary_signature.spec_bytes());
            if is_unified(d, LuaVersion::Lua51, f, g, s) {
                assert(e == d);
                assert(g == f);
                assert(is_unified(d, LuaVersion::Lua51, f, f, t));
                assert(w_header(f, s) == w_header(f, t));
                lemma_header_back(d, f, t, s);
                assert(p_header(d, t) == Ok::<((LuaVersion, Format), int), LunifyError>(((LuaVersion::Lua51, f), h.len() as int)));
            } else {
                lemma_function_back(r, d, h.len() as int, f, s, 0);
                let x = p_function(d, h.len() as int, f, LuaVersion::Lua51, s, 0)->Ok_0.0;
                let c = w_function(x, g)->Ok_0;
                let k = w_header(g, s);
                assert(e == k + c);
                assert(at(e, 0, e));
                lemma_at(e, 0, k, c);
                lemma_header_back(e, g, t, s);
                assert(!is_unified(e, LuaVersion::Lua51, g, f, t));
                lemma_proper(r, x, f, s);
                lemma_function_back(x, e, k.len() as int, g, t, 0);
                match p_function(e, k.len() as int, g, LuaVersion::Lua51, t, 0) {
                    Ok((y, q)) => {
                        assert(related(x, y, g, t));
                        lemma_twice(r, x, y, f, g, s, t);
                        assert(w_function(y, f) == Ok::<Seq<u8>, LunifyError>(b));
                        if q == e.len() { assert(spec_unify(e, f, t) == Ok::<Seq<u8>, LunifyError>(h + b)); }
                    },
                    Err(_) => { assert(spec_unify(e, f, t) is Err); },
                }
            }
        },
        Err(_) => {},
    }
}
/// C06: everything but the instructions, the lines and the stack size is what
/// has been read; constants are only added.
pub open spec fn keeps(h: Head, k: Seq<Const>, fs: Seq<Fun>, lines: Seq<i64>, locals: Seq<Loc>, upvalues: Seq<Seq<char>>, x: Fun) -> bool {
    &&& x.source == h.source && x.line_defined == h.line_defined && x.last_line_defined == h.last_line_defined
    &&& x.upvalue_count == h.upvalue_count && x.parameter_count == h.parameter_count
    &&& x.functions == fs && x.locals == locals && x.upvalues == upvalues
    &&& crate::prop_c11::extends(k, x.constants)
    &&& lines.len() == 0 ==> x.lines.len() == 0
}
pub proof fn prop_c06(h: Head, i: Seq<lua51::Instruction>, j: Seq<lua50::Instruction>, k: Seq<Const>, fs: Seq<Fun>, lines: Seq<i64>, locals: Seq<Loc>, upvalues: Seq<Seq<char>>, s: crate::Settings)
    ensures
        finish51(h, i, k, fs, lines, locals, upvalues, s) matches Ok(x) ==> keeps(h, k, fs, lines, locals, upvalues, x) && x.constants == k && x.is_variadic == h.is_variadic,
        finish50(h, j, k, fs, lines, locals, upvalues, s) matches Ok(x) ==> keeps(h, k, fs, lines, locals, upvalues, x),
{
    hide(b_final); hide(convert_all); hide(up_all); hide(encode_all); hide(variadic); hide(crate::prop_c11::helper);
    crate::prop_c11::prop_c11(j, lines, k, h.maximum_stack_size, h.parameter_count, h.is_variadic != 0, s);
}
}
