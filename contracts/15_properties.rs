/// C03 as a theorem: a chunk that lacks its end is too short, and one with
/// something behind it is too long.
pub mod prop_c03 {
use vstd::prelude::*;
use crate::vx::*;
use crate::number::*;
use crate::format::*;
use crate::function::*;
use crate::function::instruction::*;
use crate::function::instruction::interface::LuaInstruction;
use crate::function::instruction::operand::layout::*;
use crate::*;

/// `a` is what a parser says at `o` of an input of `n` bytes, and `b` what it
/// says if something follows these bytes.
pub open spec fn cut<T>(a: Parse<T>, b: Parse<T>, o: int, n: int) -> bool {
    &&& b matches Ok((_, p)) ==> o <= p
    &&& 0 <= o <= n ==> {
        &&& a matches Ok((_, p)) ==> a == b && p <= n
        &&& b matches Ok((_, p)) ==> if p <= n { a == b } else { a == Err::<(T, int), LunifyError>(LunifyError::InputTooShort) }
    }
}
pub open spec fn prefix(d: Seq<u8>, e: Seq<u8>) -> bool { d.len() <= e.len() && forall|i: int| 0 <= i < d.len() ==> d[i] == #[trigger] e[i] }

proof fn lemma_slice(d: Seq<u8>, e: Seq<u8>, o: int, k: int)
    requires prefix(d, e), 0 <= k
    ensures cut(p_slice(d, o, k), p_slice(e, o, k), o, d.len() as int)
{ if 0 <= o && o + k <= d.len() { assert(d.subrange(o, o + k) =~= e.subrange(o, o + k)); } }
proof fn lemma_byte(d: Seq<u8>, e: Seq<u8>, o: int)
    requires prefix(d, e)
    ensures cut(p_byte(d, o), p_byte(e, o), o, d.len() as int)
{}
proof fn lemma_integer(d: Seq<u8>, e: Seq<u8>, o: int, f: Format)
    requires prefix(d, e)
    ensures
        cut(p_integer(d, o, f), p_integer(e, o, f), o, d.len() as int), cut(p_size_t(d, o, f), p_size_t(e, o, f), o, d.len() as int),
        cut(p_instruction(d, o, f), p_instruction(e, o, f), o, d.len() as int), cut(p_number(d, o, f), p_number(e, o, f), o, d.len() as int),
{ lemma_slice(d, e, o, 4); lemma_slice(d, e, o, 8); }
proof fn lemma_text(d: Seq<u8>, e: Seq<u8>, o: int, f: Format)
    requires prefix(d, e)
    ensures cut(p_string(d, o, f), p_string(e, o, f), o, d.len() as int)
{
    hide(p_slice); hide(p_size_t);
    lemma_integer(d, e, o, f);
    match p_size_t(e, o, f) { Ok((k, q)) => if k >= 0 { lemma_slice(d, e, q, k as int); }, Err(_) => {} }
}
proof fn lemma_constant(d: Seq<u8>, e: Seq<u8>, o: int, f: Format)
    requires prefix(d, e)
    ensures cut(p_constant(d, o, f), p_constant(e, o, f), o, d.len() as int)
{
    hide(p_number); hide(p_string);
    lemma_byte(d, e, o);
    lemma_byte(d, e, o + 1); lemma_integer(d, e, o + 1, f); lemma_text(d, e, o + 1, f);
}
proof fn lemma_local(d: Seq<u8>, e: Seq<u8>, o: int, f: Format)
    requires prefix(d, e)
    ensures cut(p_local(d, o, f), p_local(e, o, f), o, d.len() as int)
{
    hide(p_integer); hide(p_string);
    lemma_text(d, e, o, f);
    match p_string(e, o, f) { Ok((_, q)) => { lemma_integer(d, e, q, f); match p_integer(e, q, f) { Ok((_, q)) => { lemma_integer(d, e, q, f); }, Err(_) => {} } }, Err(_) => {} }
}
proof fn lemma_decode<T: LuaInstruction>(d: Seq<u8>, e: Seq<u8>, o: int, f: Format, s: crate::Settings, l: InstructionLayout)
    requires prefix(d, e)
    ensures cut(instruction_item::<T>(d, f, s, l)(o), instruction_item::<T>(e, f, s, l)(o), o, d.len() as int)
{ hide(p_instruction); lemma_integer(d, e, o, f); }
proof fn lemma_many<T>(a: spec_fn(int) -> Parse<T>, b: spec_fn(int) -> Parse<T>, o: int, n: int, k: int)
    requires forall|o: int| cut(#[trigger] a(o), b(o), o, k)
    ensures cut(p_many(o, n, a), p_many(o, n, b), o, k)
    decreases n
{
    if n > 0 {
        lemma_many(a, b, o, n - 1, k);
        match p_many(o, n - 1, b) { Ok((_, q)) => { assert(cut(a(q), b(q), q, k)); if 0 <= o <= k < q { lemma_many_error(o, n - 1, n, a); } }, Err(_) => {} }
    }
}
proof fn lemma_list<T>(d: Seq<u8>, e: Seq<u8>, o: int, f: Format, a: spec_fn(int) -> Parse<T>, b: spec_fn(int) -> Parse<T>)
    requires prefix(d, e), forall|o: int| cut(#[trigger] a(o), b(o), o, d.len() as int)
    ensures cut(p_list(d, o, f, a), p_list(e, o, f, b), o, d.len() as int)
{
    hide(p_integer); hide(p_many);
    lemma_integer(d, e, o, f);
    match p_integer(e, o, f) { Ok((n, q)) => { lemma_many(a, b, q, n as usize as int, d.len() as int); }, Err(_) => {} }
}
proof fn lemma_lists(d: Seq<u8>, e: Seq<u8>, o: int, f: Format, s: crate::Settings)
    requires prefix(d, e)
    ensures
        cut(p_lines(d, o, f), p_lines(e, o, f), o, d.len() as int), cut(p_locals(d, o, f), p_locals(e, o, f), o, d.len() as int),
        cut(p_upvalues(d, o, f), p_upvalues(e, o, f), o, d.len() as int), cut(p_constants(d, o, f), p_constants(e, o, f), o, d.len() as int),
        cut(p_instructions::<lua50::Instruction>(d, o, f, s, s.lua50.layout), p_instructions::<lua50::Instruction>(e, o, f, s, s.lua50.layout), o, d.len() as int),
        cut(p_instructions::<lua51::Instruction>(d, o, f, s, s.lua51.layout), p_instructions::<lua51::Instruction>(e, o, f, s, s.lua51.layout), o, d.len() as int),
{
    hide(p_integer); hide(p_list); hide(p_string); hide(p_local); hide(p_constant); hide(p_decode); hide(cut);
    let n = d.len() as int;
    assert forall|o: int| cut(#[trigger] integer_item(d, f)(o), integer_item(e, f)(o), o, n) by { lemma_integer(d, e, o, f); }
    assert forall|o: int| cut(#[trigger] local_item(d, f)(o), local_item(e, f)(o), o, n) by { lemma_local(d, e, o, f); }
    assert forall|o: int| cut(#[trigger] string_item(d, f)(o), string_item(e, f)(o), o, n) by { lemma_text(d, e, o, f); }
    assert forall|o: int| cut(#[trigger] constant_item(d, f)(o), constant_item(e, f)(o), o, n) by { lemma_constant(d, e, o, f); }
    let (l, m) = (s.lua50.layout, s.lua51.layout);
    assert forall|o: int| cut(#[trigger] instruction_item::<lua50::Instruction>(d, f, s, l)(o), instruction_item::<lua50::Instruction>(e, f, s, l)(o), o, n) by { lemma_decode::<lua50::Instruction>(d, e, o, f, s, l); }
    assert forall|o: int| cut(#[trigger] instruction_item::<lua51::Instruction>(d, f, s, m)(o), instruction_item::<lua51::Instruction>(e, f, s, m)(o), o, n) by { lemma_decode::<lua51::Instruction>(d, e, o, f, s, m); }
    lemma_list(d, e, o, f, integer_item(d, f), integer_item(e, f));
    lemma_list(d, e, o, f, local_item(d, f), local_item(e, f));
    lemma_list(d, e, o, f, string_item(d, f), string_item(e, f));
    lemma_list(d, e, o, f, constant_item(d, f), constant_item(e, f));
    lemma_list(d, e, o, f, instruction_item::<lua50::Instruction>(d, f, s, l), instruction_item::<lua50::Instruction>(e, f, s, l));
    lemma_list(d, e, o, f, instruction_item::<lua51::Instruction>(d, f, s, m), instruction_item::<lua51::Instruction>(e, f, s, m));
}
/// The bytes at the end of the head.
pub open spec fn p_bytes4(d: Seq<u8>, o: int) -> Parse<(u8, u8, u8, u8)> {
    match p_byte(d, o) { Err(e) => Err(e), Ok((a, o)) =>
    match p_byte(d, o) { Err(e) => Err(e), Ok((b, o)) =>
    match p_byte(d, o) { Err(e) => Err(e), Ok((c, o)) =>
    match p_byte(d, o) { Err(e) => Err(e), Ok((x, o)) => Ok(((a, b, c, x), o)) } } } }
}
proof fn lemma_bytes4(d: Seq<u8>, e: Seq<u8>, o: int)
    requires prefix(d, e)
    ensures cut(p_bytes4(d, o), p_bytes4(e, o), o, d.len() as int)
{}
pub open spec fn p_line_numbers(d: Seq<u8>, o: int, f: Format, v: LuaVersion) -> Parse<(i64, i64)> {
    match p_integer(d, o, f) { Err(e) => Err(e), Ok((a, o)) =>
    match (if v is Lua51 { p_integer(d, o, f) } else { Ok((a, o)) }) { Err(e) => Err(e), Ok((b, o)) => Ok(((a, b), o)) } }
}
proof fn lemma_line_numbers(d: Seq<u8>, e: Seq<u8>, o: int, f: Format, v: LuaVersion)
    requires prefix(d, e)
    ensures cut(p_line_numbers(d, o, f, v), p_line_numbers(e, o, f, v), o, d.len() as int)
{
    hide(p_integer);
    lemma_integer(d, e, o, f);
    match p_integer(e, o, f) { Ok((_, q)) => { lemma_integer(d, e, q, f); }, Err(_) => {} }
}
pub open spec fn p_head_parts(d: Seq<u8>, o: int, f: Format, v: LuaVersion) -> Parse<Head> {
    match p_string(d, o, f) { Err(e) => Err(e), Ok((source, o)) =>
    match p_line_numbers(d, o, f, v) { Err(e) => Err(e), Ok((l, o)) =>
    match p_bytes4(d, o) { Err(e) => Err(e), Ok((b, o)) =>
        Ok((Head { source, line_defined: l.0, last_line_defined: l.1, upvalue_count: b.0, parameter_count: b.1, is_variadic: b.2, maximum_stack_size: b.3 }, o)) } } }
}
proof fn lemma_head_parts(d: Seq<u8>, o: int, f: Format, v: LuaVersion)
    ensures p_head(d, o, f, v) == p_head_parts(d, o, f, v)
{ hide(p_string); hide(p_integer); hide(p_byte); }
proof fn lemma_head(d: Seq<u8>, e: Seq<u8>, o: int, f: Format, v: LuaVersion)
    requires prefix(d, e)
    ensures cut(p_head(d, o, f, v), p_head(e, o, f, v), o, d.len() as int)
{
    lemma_head_parts(d, o, f, v); lemma_head_parts(e, o, f, v);
    lemma_head_cut(d, e, o, f, v);
}
proof fn lemma_head_cut(d: Seq<u8>, e: Seq<u8>, o: int, f: Format, v: LuaVersion)
    requires prefix(d, e)
    ensures cut(p_head_parts(d, o, f, v), p_head_parts(e, o, f, v), o, d.len() as int)
{
    hide(p_string); hide(p_line_numbers); hide(p_bytes4);
    lemma_text(d, e, o, f);
    match p_string(e, o, f) { Ok((_, q)) => {
        lemma_line_numbers(d, e, q, f, v);
        match p_line_numbers(e, q, f, v) { Ok((_, q)) => { lemma_bytes4(d, e, q); }, Err(_) => {} }
    }, Err(_) => {} }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
proof fn lemma_function(d: Seq<u8>, e: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int)
    requires prefix(d, e)
    ensures cut(p_function(d, o, f, v, s, depth), p_function(e, o, f, v, s, depth), o, d.len() as int)
    decreases 2 * (201 - depth) + 1, 0int
{
    hide(p_head); hide(p_lines); hide(p_locals); hide(p_upvalues); hide(p_constants); hide(p_instructions); hide(p_functions); hide(finish50); hide(finish51); hide(p_function);
    lemma_function_step(d, o, f, v, s, depth); lemma_function_step(e, o, f, v, s, depth);
    let n = d.len() as int;
    if depth <= 200 {
        lemma_head(d, e, o, f, v);
        match p_head(e, o, f, v) { Ok((h, q)) => {
            lemma_lists(d, e, q, f, s);
            if v is Lua51 {
                match p_instructions::<lua51::Instruction>(e, q, f, s, s.lua51.layout) { Ok((_, q)) => { lemma_lists(d, e, q, f, s);
                match p_constants(e, q, f) { Ok((_, q)) => { lemma_functions(d, e, q, f, v, s, depth);
                match p_functions(e, q, f, v, s, depth) { Ok((_, q)) => { lemma_lists(d, e, q, f, s);
                match p_lines(e, q, f) { Ok((_, q)) => { lemma_lists(d, e, q, f, s);
                match p_locals(e, q, f) { Ok((_, q)) => { lemma_lists(d, e, q, f, s); }, Err(_) => {} } }, Err(_) => {} } }, Err(_) => {} } }, Err(_) => {} } }, Err(_) => {} }
            } else {
                match p_lines(e, q, f) { Ok((_, q)) => { lemma_lists(d, e, q, f, s);
                match p_locals(e, q, f) { Ok((_, q)) => { lemma_lists(d, e, q, f, s);
                match p_upvalues(e, q, f) { Ok((_, q)) => { lemma_lists(d, e, q, f, s);
                match p_constants(e, q, f) { Ok((_, q)) => { lemma_functions(d, e, q, f, v, s, depth);
                match p_functions(e, q, f, v, s, depth) { Ok((_, q)) => { lemma_lists(d, e, q, f, s); }, Err(_) => {} } }, Err(_) => {} } }, Err(_) => {} } }, Err(_) => {} } }, Err(_) => {} }
            }
        }, Err(_) => {} }
    }
}
proof fn lemma_functions(d: Seq<u8>, e: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int)
    requires prefix(d, e), depth <= 200
    ensures cut(p_functions(d, o, f, v, s, depth), p_functions(e, o, f, v, s, depth), o, d.len() as int)
    decreases 2 * (201 - depth), 1int, 0int
{
    hide(p_integer); hide(p_functions); hide(p_functions_n);
    lemma_functions_empty(d, o, f, v, s, depth); lemma_functions_empty(e, o, f, v, s, depth);
    lemma_integer(d, e, o, f);
    match p_integer(e, o, f) { Ok((n, q)) => { lemma_functions_n(d, e, q, f, v, s, depth, n as usize as int); }, Err(_) => {} }
}
proof fn lemma_functions_n_step(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int, n: int)
    requires n > 0, depth <= 200
    ensures p_functions_n(d, o, f, v, s, depth, n) == (match p_functions_n(d, o, f, v, s, depth, n - 1) { Err(e) => Err(e), Ok((fs, o)) =>
        match p_function(d, o, f, v, s, depth + 1) { Err(e) => Err(e), Ok((x, o)) => Ok((fs.push(x), o)) } })
{}
proof fn lemma_functions_n_none(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int, n: int)
    ensures n <= 0 ==> p_functions_n(d, o, f, v, s, depth, n) == Ok::<(Seq<Fun>, int), LunifyError>((Seq::empty(), o))
{}
proof fn lemma_functions_n(d: Seq<u8>, e: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int, n: int)
    requires prefix(d, e), depth <= 200
    ensures cut(p_functions_n(d, o, f, v, s, depth, n), p_functions_n(e, o, f, v, s, depth, n), o, d.len() as int)
    decreases 2 * (201 - depth), 0int, n
{
    hide(p_function); hide(p_functions_n);
    lemma_functions_n_none(d, o, f, v, s, depth, n); lemma_functions_n_none(e, o, f, v, s, depth, n);
    if n > 0 {
        lemma_functions_n(d, e, o, f, v, s, depth, n - 1);
        lemma_functions_n_step(d, o, f, v, s, depth, n); lemma_functions_n_step(e, o, f, v, s, depth, n);
        match p_functions_n(e, o, f, v, s, depth, n - 1) { Ok((_, q)) => {
            lemma_function(d, e, q, f, v, s, depth + 1);
            if 0 <= o <= d.len() < q { lemma_functions_error(d, o, f, v, s, depth, n - 1, n); }
        }, Err(_) => {} }
    }
}


proof fn lemma_widths(d: Seq<u8>, e: Seq<u8>, o: int)
    requires prefix(d, e)
    ensures cut(p_widths(d, o), p_widths(e, o), o, d.len() as int)
{}
proof fn lemma_format51(d: Seq<u8>, e: Seq<u8>, o: int)
    requires prefix(d, e)
    ensures cut(p_format51(d, o), p_format51(e, o), o, d.len() as int)
{
    hide(p_widths);
    match p_byte(e, o) { Ok((_, q)) => { lemma_widths(d, e, q); }, Err(_) => {} }
}
proof fn lemma_format50(d: Seq<u8>, e: Seq<u8>, o: int, l: InstructionLayout)
    requires prefix(d, e)
    ensures cut(p_format50(d, o, l), p_format50(e, o, l), o, d.len() as int)
{
    hide(p_widths); hide(p_slice); hide(layout_sizes); hide(de_f);
    lemma_widths(d, e, o);
    match p_widths(e, o) { Ok((_, q)) => {
        lemma_slice(d, e, q, 4);
        match p_slice(e, q, 4) { Ok((_, q)) => { lemma_slice(d, e, q + 1, 4); lemma_slice(d, e, q + 1, 8); }, Err(_) => {} }
    }, Err(_) => {} }
}
proof fn lemma_header(d: Seq<u8>, e: Seq<u8>, s: crate::Settings)
    requires prefix(d, e), p_signature(d, s) == p_signature(e, s)
    ensures cut(p_header(d, s), p_header(e, s), 0, d.len() as int)
{
    hide(p_format50); hide(p_format51);
    match p_signature(e, s) { Ok((_, q)) => {
        lemma_byte(d, e, q); lemma_format50(d, e, q + 1, s.lua50.layout); lemma_format51(d, e, q + 1);
    }, Err(_) => {} }
}
/// C03: an input is only converted if it is one complete chunk. `e` is what
/// has been converted, `d` the beginning of it, and `w` begins with it.
pub proof fn prop_c03(e: Seq<u8>, d: Seq<u8>, w: Seq<u8>, out: Format, s: crate::Settings)
    requires
        prefix(d, e), d.len() < e.len(), prefix(e, w), e.len() < w.len(),
        p_header(e, s) matches Ok(((v, f), _)) && !is_unified(e, v, f, out, s),
        spec_unify(e, out, s) is Ok,
        p_signature(w, s) == p_signature(e, s), starts(w, s.output.binary_signature.spec_bytes()) ==> starts(e, s.output.binary_signature.spec_bytes()),
    ensures
        // whatever is left of the chunk is too short, once the signature is there and
        // unless the header alone shows that nothing has to be converted
        p_signature(d, s) == p_signature(e, s) ==> spec_unify(d, out, s) == Err::<Seq<u8>, LunifyError>(LunifyError::InputTooShort),
        // whatever follows it is too long
        spec_unify(w, out, s) == Err::<Seq<u8>, LunifyError>(LunifyError::InputTooLong),
{
    hide(p_header); hide(p_function); hide(w_function); hide(p_signature);
    let ((v, f), q) = p_header(e, s)->Ok_0;
    lemma_header(e, w, s);
    lemma_function(e, w, q, f, v, s, 0);
    lemma_header_inside(e, s);
    lemma_starts(e, w, s.output.binary_signature.spec_bytes());
    lemma_starts(d, e, s.output.binary_signature.spec_bytes());
    if p_signature(d, s) == p_signature(e, s) {
        lemma_header(d, e, s);
        lemma_function(d, e, q, f, v, s, 0);
    }
}
proof fn lemma_starts(d: Seq<u8>, e: Seq<u8>, g: Seq<u8>)
    requires prefix(d, e)
    ensures starts(d, g) ==> starts(e, g)
{ if starts(d, g) { assert(d.subrange(0, g.len() as int) =~= e.subrange(0, g.len() as int)); } }
proof fn lemma_header_inside(d: Seq<u8>, s: crate::Settings)
    ensures p_header(d, s) matches Ok((_, q)) ==> 0 <= q <= d.len()
{
    hide(p_signature);
    assert(prefix(d, d));
    lemma_header(d, d, s);
}
}
