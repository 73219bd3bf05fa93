/// Specification of functions (C01, C03, C06, C13, C14).
pub mod sp_function {
use vstd::prelude::*;
use crate::vx::*;
use crate::number::*;
use crate::format::*;
use crate::function::*;
use crate::function::local::*;
use crate::function::constant::*;
use crate::function::instruction::*;
use crate::function::instruction::interface::LuaInstruction;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

/// A local variable and a function, with strings as sequences of characters.
pub struct Loc { pub name: Seq<char>, pub start: i64, pub end: i64 }
pub struct Fun {
    pub source: Seq<char>, pub line_defined: i64, pub last_line_defined: i64,
    pub upvalue_count: u8, pub parameter_count: u8, pub is_variadic: u8, pub maximum_stack_size: u8,
    pub instructions: Seq<u64>, pub constants: Seq<Const>, pub functions: Seq<Fun>,
    pub lines: Seq<i64>, pub locals: Seq<Loc>, pub upvalues: Seq<Seq<char>>,
}
pub open spec fn view_local(l: LocalVariable) -> Loc { Loc { name: l.name@, start: l.start_program_counter, end: l.end_program_counter } }
pub open spec fn view_locals(l: Seq<LocalVariable>) -> Seq<Loc> { Seq::new(l.len(), |i: int| view_local(l[i])) }
pub open spec fn view_strings(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn view_function(f: Function) -> Fun
    decreases f
{
    Fun {
        source: f.source_file@, line_defined: f.line_defined, last_line_defined: f.last_line_defined,
        upvalue_count: f.upvalue_count, parameter_count: f.parameter_count, is_variadic: f.is_variadic, maximum_stack_size: f.maximum_stack_size,
        instructions: f.instructions@, constants: view_constants(f.constants@),
        functions: Seq::new(f.functions@.len(), |i: int| if 0 <= i < f.functions@.len() { view_function(f.functions@[i]) } else { arbitrary() }),
        lines: f.line_info@, locals: view_locals(f.local_variables@), upvalues: view_strings(f.upvalues@),
    }
}
pub open spec fn view_functions(f: Seq<Function>) -> Seq<Fun> { Seq::new(f.len(), |i: int| view_function(f[i])) }

// ------------------------------------------------------------------ reading

/// `n` items, one behind the other.
pub open spec fn p_many<T>(o: int, n: int, item: spec_fn(int) -> Parse<T>) -> Parse<Seq<T>>
    decreases n
{
    if n <= 0 { Ok((Seq::empty(), o)) } else {
        match p_many(o, n - 1, item) { Err(e) => Err(e), Ok((s, o)) =>
        match item(o) { Err(e) => Err(e), Ok((x, o)) => Ok((s.push(x), o)) } }
    }
}
/// C06: the number of items, and the items.
pub open spec fn p_list<T>(d: Seq<u8>, o: int, f: Format, item: spec_fn(int) -> Parse<T>) -> Parse<Seq<T>> {
    match p_integer(d, o, f) { Err(e) => Err(e), Ok((n, o)) => p_many(o, n as usize as int, item) }
}
pub open spec fn p_constant(d: Seq<u8>, o: int, f: Format) -> Parse<Const> {
    match p_byte(d, o) { Err(e) => Err(e), Ok((kind, o)) =>
        if kind == 0 { Ok((Const::Nil, o)) }
        else if kind == 1 { match p_byte(d, o) { Err(e) => Err(e), Ok((b, o)) => Ok((Const::Boolean(b != 0), o)) } }
        else if kind == 3 { match p_number(d, o, f) { Err(e) => Err(e), Ok((n, o)) => Ok((Const::Number(n), o)) } }
        else if kind == 4 { match p_string(d, o, f) { Err(e) => Err(e), Ok((s, o)) => Ok((Const::String(s), o)) } }
        else { Err(LunifyError::InvalidConstantType(kind)) }
    }
}
pub open spec fn p_local(d: Seq<u8>, o: int, f: Format) -> Parse<Loc> {
    match p_string(d, o, f) { Err(e) => Err(e), Ok((name, o)) =>
    match p_integer(d, o, f) { Err(e) => Err(e), Ok((start, o)) =>
    match p_integer(d, o, f) { Err(e) => Err(e), Ok((end, o)) => Ok((Loc { name, start, end }, o)) } } }
}
pub open spec fn instruction_item<T: LuaInstruction>(d: Seq<u8>, f: Format, s: crate::Settings, l: InstructionLayout) -> spec_fn(int) -> Parse<T> {
    |o: int| p_decode(d, o, f, decoder::<T>(s, l))
}
pub open spec fn constant_item(d: Seq<u8>, f: Format) -> spec_fn(int) -> Parse<Const> { |o: int| p_constant(d, o, f) }
pub open spec fn local_item(d: Seq<u8>, f: Format) -> spec_fn(int) -> Parse<Loc> { |o: int| p_local(d, o, f) }
pub open spec fn integer_item(d: Seq<u8>, f: Format) -> spec_fn(int) -> Parse<i64> { |o: int| p_integer(d, o, f) }
pub open spec fn string_item(d: Seq<u8>, f: Format) -> spec_fn(int) -> Parse<Seq<char>> { |o: int| p_string(d, o, f) }
pub open spec fn p_instructions<T: LuaInstruction>(d: Seq<u8>, o: int, f: Format, s: crate::Settings, l: InstructionLayout) -> Parse<Seq<T>> { p_list(d, o, f, instruction_item::<T>(d, f, s, l)) }
pub open spec fn p_constants(d: Seq<u8>, o: int, f: Format) -> Parse<Seq<Const>> { p_list(d, o, f, constant_item(d, f)) }
pub open spec fn p_locals(d: Seq<u8>, o: int, f: Format) -> Parse<Seq<Loc>> { p_list(d, o, f, local_item(d, f)) }
pub open spec fn p_lines(d: Seq<u8>, o: int, f: Format) -> Parse<Seq<i64>> { p_list(d, o, f, integer_item(d, f)) }
pub open spec fn p_upvalues(d: Seq<u8>, o: int, f: Format) -> Parse<Seq<Seq<char>>> { p_list(d, o, f, string_item(d, f)) }

/// Everything in front of the lists of a function.
pub struct Head { pub source: Seq<char>, pub line_defined: i64, pub last_line_defined: i64, pub upvalue_count: u8, pub parameter_count: u8, pub is_variadic: u8, pub maximum_stack_size: u8 }
pub open spec fn p_head(d: Seq<u8>, o: int, f: Format, v: LuaVersion) -> Parse<Head> {
    match p_string(d, o, f) { Err(e) => Err(e), Ok((source, o)) =>
    match p_integer(d, o, f) { Err(e) => Err(e), Ok((line_defined, o)) =>
    match (if v is Lua51 { p_integer(d, o, f) } else { Ok((line_defined, o)) }) { Err(e) => Err(e), Ok((last_line_defined, o)) =>
    match p_byte(d, o) { Err(e) => Err(e), Ok((upvalue_count, o)) =>
    match p_byte(d, o) { Err(e) => Err(e), Ok((parameter_count, o)) =>
    match p_byte(d, o) { Err(e) => Err(e), Ok((is_variadic, o)) =>
    match p_byte(d, o) { Err(e) => Err(e), Ok((maximum_stack_size, o)) =>
        Ok((Head { source, line_defined, last_line_defined, upvalue_count, parameter_count, is_variadic, maximum_stack_size }, o)) } } } } } } }
}
/// The words of the first `n` instructions.
pub open spec fn encode_all<T: LuaInstruction>(i: Seq<T>, n: int, s: crate::Settings) -> Result<Seq<u64>, LunifyError>
    decreases n
{
    if n <= 0 { Ok(Seq::empty()) } else {
        match encode_all(i, n - 1, s) { Err(e) => Err(e), Ok(w) => match i[n - 1].vx_encode(s) { Err(e) => Err(e), Ok(x) => Ok(w.push(x)) } }
    }
}
/// C14: functions that take a variable number of arguments are marked.
pub open spec fn variadic_flags(v: u8) -> u8 { if v != 0 { v | 2 } else { v } }
pub open spec fn finish51(h: Head, i: Seq<Ins>, k: Seq<Const>, fs: Seq<Fun>, lines: Seq<i64>, locals: Seq<Loc>, upvalues: Seq<Seq<char>>, s: crate::Settings) -> Result<Fun, LunifyError> {
    match spec_convert(i, lines, h.maximum_stack_size, s) { Err(e) => Err(e), Ok((i, lines, maximum_stack_size)) =>
    match encode_all(i, i.len() as int, s) { Err(e) => Err(e), Ok(instructions) =>
        Ok(Fun { source: h.source, line_defined: h.line_defined, last_line_defined: h.last_line_defined, upvalue_count: h.upvalue_count, parameter_count: h.parameter_count,
            is_variadic: h.is_variadic, maximum_stack_size, instructions, constants: k, functions: fs, lines, locals, upvalues }) } }
}
pub open spec fn finish50(h: Head, i: Seq<lua50::Instruction>, k: Seq<Const>, fs: Seq<Fun>, lines: Seq<i64>, locals: Seq<Loc>, upvalues: Seq<Seq<char>>, s: crate::Settings) -> Result<Fun, LunifyError> {
    match spec_upcast(i, lines, k, h.maximum_stack_size, h.parameter_count, h.is_variadic != 0, s) { Err(e) => Err(e), Ok((i, lines, maximum_stack_size, constants)) =>
    match encode_all(i, i.len() as int, s) { Err(e) => Err(e), Ok(instructions) =>
        Ok(Fun { source: h.source, line_defined: h.line_defined, last_line_defined: h.last_line_defined, upvalue_count: h.upvalue_count, parameter_count: h.parameter_count,
            is_variadic: variadic_flags(h.is_variadic), maximum_stack_size, instructions, constants, functions: fs, lines, locals, upvalues }) } }
}
/// C06: a function, and everything in it.
pub open spec fn p_function(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int) -> Parse<Fun>
    decreases 2 * (201 - depth) + 1, 0int
{
    if depth > 200 { Err(LunifyError::NestingTooDeep) } else {
        match p_head(d, o, f, v) { Err(e) => Err(e), Ok((h, o)) =>
        if v is Lua51 {
            match p_instructions::<lua51::Instruction>(d, o, f, s, s.lua51.layout) { Err(e) => Err(e), Ok((i, o)) =>
            match p_constants(d, o, f) { Err(e) => Err(e), Ok((k, o)) =>
            match p_functions(d, o, f, v, s, depth) { Err(e) => Err(e), Ok((fs, o)) =>
            match p_lines(d, o, f) { Err(e) => Err(e), Ok((lines, o)) =>
            match p_locals(d, o, f) { Err(e) => Err(e), Ok((locals, o)) =>
            match p_upvalues(d, o, f) { Err(e) => Err(e), Ok((upvalues, o)) =>
            match finish51(h, i, k, fs, lines, locals, upvalues, s) { Err(e) => Err(e), Ok(x) => Ok((x, o)) } } } } } } }
        } else {
            match p_lines(d, o, f) { Err(e) => Err(e), Ok((lines, o)) =>
            match p_locals(d, o, f) { Err(e) => Err(e), Ok((locals, o)) =>
            match p_upvalues(d, o, f) { Err(e) => Err(e), Ok((upvalues, o)) =>
            match p_constants(d, o, f) { Err(e) => Err(e), Ok((k, o)) =>
            match p_functions(d, o, f, v, s, depth) { Err(e) => Err(e), Ok((fs, o)) =>
            match p_instructions::<lua50::Instruction>(d, o, f, s, s.lua50.layout) { Err(e) => Err(e), Ok((i, o)) =>
            match finish50(h, i, k, fs, lines, locals, upvalues, s) { Err(e) => Err(e), Ok(x) => Ok((x, o)) } } } } } } }
        } }
    }
}
/// The same, one step unfolded.
pub open spec fn p_function_step(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int) -> Parse<Fun>
{
    if depth > 200 { Err(LunifyError::NestingTooDeep) } else {
        match p_head(d, o, f, v) { Err(e) => Err(e), Ok((h, o)) =>
        if v is Lua51 {
            match p_instructions::<lua51::Instruction>(d, o, f, s, s.lua51.layout) { Err(e) => Err(e), Ok((i, o)) =>
            match p_constants(d, o, f) { Err(e) => Err(e), Ok((k, o)) =>
            match p_functions(d, o, f, v, s, depth) { Err(e) => Err(e), Ok((fs, o)) =>
            match p_lines(d, o, f) { Err(e) => Err(e), Ok((lines, o)) =>
            match p_locals(d, o, f) { Err(e) => Err(e), Ok((locals, o)) =>
            match p_upvalues(d, o, f) { Err(e) => Err(e), Ok((upvalues, o)) =>
            match finish51(h, i, k, fs, lines, locals, upvalues, s) { Err(e) => Err(e), Ok(x) => Ok((x, o)) } } } } } } }
        } else {
            match p_lines(d, o, f) { Err(e) => Err(e), Ok((lines, o)) =>
            match p_locals(d, o, f) { Err(e) => Err(e), Ok((locals, o)) =>
            match p_upvalues(d, o, f) { Err(e) => Err(e), Ok((upvalues, o)) =>
            match p_constants(d, o, f) { Err(e) => Err(e), Ok((k, o)) =>
            match p_functions(d, o, f, v, s, depth) { Err(e) => Err(e), Ok((fs, o)) =>
            match p_instructions::<lua50::Instruction>(d, o, f, s, s.lua50.layout) { Err(e) => Err(e), Ok((i, o)) =>
            match finish50(h, i, k, fs, lines, locals, upvalues, s) { Err(e) => Err(e), Ok(x) => Ok((x, o)) } } } } } } }
        } }
    }
}
pub open spec fn p_functions(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int) -> Parse<Seq<Fun>>
    decreases 2 * (201 - depth), 1int, 0int
{ if depth > 200 { Err(LunifyError::NestingTooDeep) } else { match p_integer(d, o, f) { Err(e) => Err(e), Ok((n, o)) => p_functions_n(d, o, f, v, s, depth, n as usize as int) } } }
pub open spec fn p_functions_n(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int, n: int) -> Parse<Seq<Fun>>
    decreases 2 * (201 - depth), 0int, n
{
    if n <= 0 || depth > 200 { Ok((Seq::empty(), o)) } else {
        match p_functions_n(d, o, f, v, s, depth, n - 1) { Err(e) => Err(e), Ok((fs, o)) =>
        match p_function(d, o, f, v, s, depth + 1) { Err(e) => Err(e), Ok((x, o)) => Ok((fs.push(x), o)) } }
    }
}

// ------------------------------------------------------------------ writing

pub open spec fn w_many<T>(s: Seq<T>, n: int, item: spec_fn(T) -> Written) -> Written
    decreases n
{ if n <= 0 { Ok(Seq::empty()) } else { cat(w_many(s, n - 1, item), item(s[n - 1])) } }
pub open spec fn w_list<T>(s: Seq<T>, f: Format, item: spec_fn(T) -> Written) -> Written { cat(w_integer(s.len() as i64, f), w_many(s, s.len() as int, item)) }
pub open spec fn w_constant(c: Const, f: Format) -> Written {
    match c {
        Const::Nil => Ok(seq![0u8]),
        Const::Boolean(b) => Ok(seq![1u8, if b { 1u8 } else { 0u8 }]),
        Const::Number(n) => cat(Ok(seq![3u8]), w_number(n, f)),
        Const::String(s) => cat(Ok(seq![4u8]), w_string(s, f)),
    }
}
pub open spec fn w_local(l: Loc, f: Format) -> Written { cat(cat(w_string(l.name, f), w_integer(l.start, f)), w_integer(l.end, f)) }
pub open spec fn w_constant_item(f: Format) -> spec_fn(Const) -> Written { |c: Const| w_constant(c, f) }
pub open spec fn w_local_item(f: Format) -> spec_fn(Loc) -> Written { |l: Loc| w_local(l, f) }
pub open spec fn w_word_item(f: Format) -> spec_fn(u64) -> Written { |w: u64| w_instruction(w, f) }
pub open spec fn w_line_item(f: Format) -> spec_fn(i64) -> Written { |l: i64| w_integer(l, f) }
pub open spec fn w_string_item(f: Format) -> spec_fn(Seq<char>) -> Written { |s: Seq<char>| w_string(s, f) }
pub open spec fn w_head(x: Fun, f: Format) -> Written {
    cat(cat(cat(w_string(x.source, f), w_integer(x.line_defined, f)), w_integer(x.last_line_defined, f)), Ok(seq![x.upvalue_count, x.parameter_count, x.is_variadic, x.maximum_stack_size]))
}
/// C06: the parts of a function, in the order of Lua 5.1.
pub open spec fn w_function(x: Fun, f: Format) -> Written
    decreases x, 1int, 0int
{
    cat(cat(cat(cat(cat(cat(w_head(x, f), w_list(x.instructions, f, w_word_item(f))), w_list(x.constants, f, w_constant_item(f))),
        cat(w_integer(x.functions.len() as i64, f), w_functions(x, x.functions.len() as int, f))),
        w_list(x.lines, f, w_line_item(f))), w_list(x.locals, f, w_local_item(f))), w_list(x.upvalues, f, w_string_item(f)))
}
/// The first `n` functions in a function.
pub open spec fn w_functions(x: Fun, n: int, f: Format) -> Written
    decreases x, 0int, n
{ if n <= 0 || n > x.functions.len() { Ok(Seq::empty()) } else { cat(w_functions(x, n - 1, f), w_function(x.functions[n - 1], f)) } }

// ------------------------------------------------------------------- lemmas

pub broadcast proof fn lemma_view_constants_push(c: Seq<Constant>, x: Constant)
    ensures #[trigger] view_constants(c.push(x)) == view_constants(c).push(view_constant(x))
{ assert(view_constants(c.push(x)) =~= view_constants(c).push(view_constant(x))); }
pub broadcast proof fn lemma_view_locals_push(c: Seq<LocalVariable>, x: LocalVariable)
    ensures #[trigger] view_locals(c.push(x)) == view_locals(c).push(view_local(x))
{ assert(view_locals(c.push(x)) =~= view_locals(c).push(view_local(x))); }
pub broadcast proof fn lemma_view_strings_push(c: Seq<String>, x: String)
    ensures #[trigger] view_strings(c.push(x)) == view_strings(c).push(x@)
{ assert(view_strings(c.push(x)) =~= view_strings(c).push(x@)); }
pub broadcast proof fn lemma_view_functions_push(c: Seq<Function>, x: Function)
    ensures #[trigger] view_functions(c.push(x)) == view_functions(c).push(view_function(x))
{ assert(view_functions(c.push(x)) =~= view_functions(c).push(view_function(x))); }
pub proof fn lemma_view_empty()
    ensures view_constants(Seq::empty()) == Seq::<Const>::empty(), view_locals(Seq::empty()) == Seq::<Loc>::empty(),
        view_strings(Seq::empty()) == Seq::<Seq<char>>::empty(), view_functions(Seq::empty()) == Seq::<Fun>::empty()
{
    assert(view_constants(Seq::empty()) =~= Seq::empty()); assert(view_locals(Seq::empty()) =~= Seq::empty());
    assert(view_strings(Seq::empty()) =~= Seq::empty()); assert(view_functions(Seq::empty()) =~= Seq::empty());
}
pub proof fn lemma_many_empty<T>(o: int, item: spec_fn(int) -> Parse<T>)
    ensures p_many(o, 0, item) == Ok::<(Seq<T>, int), LunifyError>((Seq::empty(), o))
{}
pub proof fn lemma_function_step(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int)
    ensures p_function(d, o, f, v, s, depth) == p_function_step(d, o, f, v, s, depth)
{}
pub proof fn lemma_functions_empty(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int)
    requires depth <= 200
    ensures
        p_functions(d, o, f, v, s, depth) == (match p_integer(d, o, f) { Err(e) => Err(e), Ok((n, o)) => p_functions_n(d, o, f, v, s, depth, n as usize as int) }),
        forall|p: int| #[trigger] p_functions_n(d, p, f, v, s, depth, 0) == Ok::<(Seq<Fun>, int), LunifyError>((Seq::empty(), p))
{}
/// The next item of a list: an error is the result of the whole list.
pub proof fn lemma_many_step<T>(o: int, k: int, n: int, item: spec_fn(int) -> Parse<T>)
    requires 0 <= k < n
    ensures p_many(o, k, item) matches Ok((s, p)) ==> match item(p) { Ok((x, q)) => p_many(o, k + 1, item) == Ok::<(Seq<T>, int), LunifyError>((s.push(x), q)), Err(e) => p_many(o, n, item) == Err::<(Seq<T>, int), LunifyError>(e) }
{ lemma_many_error(o, k + 1, n, item); }
pub proof fn lemma_functions_step(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int, k: int, n: int)
    requires 0 <= k < n, depth <= 200
    ensures p_functions_n(d, o, f, v, s, depth, k) matches Ok((fs, p)) ==> match p_function(d, p, f, v, s, depth + 1) {
        Ok((x, q)) => p_functions_n(d, o, f, v, s, depth, k + 1) == Ok::<(Seq<Fun>, int), LunifyError>((fs.push(x), q)), Err(e) => p_functions_n(d, o, f, v, s, depth, n) == Err::<(Seq<Fun>, int), LunifyError>(e) }
{ lemma_functions_error(d, o, f, v, s, depth, k + 1, n); }
/// An error is the result of the whole list.
pub proof fn lemma_many_error<T>(o: int, n: int, k: int, item: spec_fn(int) -> Parse<T>)
    requires n <= k
    ensures p_many(o, n, item) is Err ==> p_many(o, k, item) == p_many(o, n, item)
    decreases k - n
{ if n < k { lemma_many_error(o, n, k - 1, item); } }
pub proof fn lemma_functions_error(d: Seq<u8>, o: int, f: Format, v: LuaVersion, s: crate::Settings, depth: int, n: int, k: int)
    requires n <= k, depth <= 200
    ensures p_functions_n(d, o, f, v, s, depth, n) is Err ==> p_functions_n(d, o, f, v, s, depth, k) == p_functions_n(d, o, f, v, s, depth, n)
    decreases k - n
{ if n < k { lemma_functions_error(d, o, f, v, s, depth, n, k - 1); } }

pub broadcast proof fn lemma_flags(v: u8)
    ensures #[trigger] (v | 2u8) != 0
{ assert(v | 2u8 != 0) by (bit_vector); }
pub proof fn lemma_w_many_empty<T>(s: Seq<T>, item: spec_fn(T) -> Written)
    ensures w_many(s, 0, item) == Ok::<Seq<u8>, LunifyError>(Seq::empty())
{}
pub proof fn lemma_w_many_error<T>(s: Seq<T>, n: int, k: int, item: spec_fn(T) -> Written)
    requires n <= k
    ensures w_many(s, n, item) is Err ==> w_many(s, k, item) == w_many(s, n, item)
    decreases k - n
{ if n < k { lemma_w_many_error(s, n, k - 1, item); } }
/// The next item of a list: an error is the result of the whole list.
pub proof fn lemma_w_many_step<T>(s: Seq<T>, k: int, item: spec_fn(T) -> Written)
    requires 0 <= k < s.len()
    ensures w_many(s, k, item) matches Ok(b) ==> match item(s[k]) { Ok(x) => w_many(s, k + 1, item) == Ok::<Seq<u8>, LunifyError>(b + x), Err(e) => w_many(s, s.len() as int, item) == Err::<Seq<u8>, LunifyError>(e) }
{ lemma_w_many_error(s, k + 1, s.len() as int, item); }
pub proof fn lemma_w_functions_error(x: Fun, n: int, k: int, f: Format)
    requires n <= k <= x.functions.len()
    ensures w_functions(x, n, f) is Err ==> w_functions(x, k, f) == w_functions(x, n, f)
    decreases k - n
{ if n < k { lemma_w_functions_error(x, n, k - 1, f); } }
pub proof fn lemma_w_functions_step(x: Fun, k: int, f: Format)
    requires 0 <= k < x.functions.len()
    ensures w_functions(x, k, f) matches Ok(b) ==> match w_function(x.functions[k], f) { Ok(y) => w_functions(x, k + 1, f) == Ok::<Seq<u8>, LunifyError>(b + y), Err(e) => w_functions(x, x.functions.len() as int, f) == Err::<Seq<u8>, LunifyError>(e) }
{ lemma_w_functions_error(x, k + 1, x.functions.len() as int, f); }
pub proof fn lemma_w_functions_empty(x: Fun, f: Format)
    ensures w_functions(x, 0, f) == Ok::<Seq<u8>, LunifyError>(Seq::empty())
{}
/// The function up to some part.
pub open spec fn w_part1(x: Fun, f: Format) -> Written { cat(w_head(x, f), w_list(x.instructions, f, w_word_item(f))) }
pub open spec fn w_part2(x: Fun, f: Format) -> Written { cat(w_part1(x, f), w_list(x.constants, f, w_constant_item(f))) }
pub open spec fn w_part3(x: Fun, f: Format) -> Written { cat(w_part2(x, f), cat(w_integer(x.functions.len() as i64, f), w_functions(x, x.functions.len() as int, f))) }
pub open spec fn w_part4(x: Fun, f: Format) -> Written { cat(w_part3(x, f), w_list(x.lines, f, w_line_item(f))) }
pub open spec fn w_part5(x: Fun, f: Format) -> Written { cat(w_part4(x, f), w_list(x.locals, f, w_local_item(f))) }
pub open spec fn w_part6(x: Fun, f: Format) -> Written { cat(w_part5(x, f), w_list(x.upvalues, f, w_string_item(f))) }
pub proof fn lemma_w_function_step(x: Fun, f: Format)
    ensures w_function(x, f) == w_part6(x, f)
{}
pub proof fn lemma_part(d: Seq<u8>, p: Seq<u8>, i: Seq<u8>, m: Seq<u8>)
    ensures ((d + p) + i) + m == d + (p + (i + m))
{ assert(((d + p) + i) + m =~= d + (p + (i + m))); }
pub proof fn lemma_w_head(d: Seq<u8>, s: Seq<u8>, a: Seq<u8>, b: Seq<u8>, u: u8, p: u8, v: u8, m: u8)
    ensures (((d + s) + a) + b).push(u).push(p).push(v).push(m) == d + (((s + a) + b) + seq![u, p, v, m])
{ assert((((d + s) + a) + b).push(u).push(p).push(v).push(m) =~= d + (((s + a) + b) + seq![u, p, v, m])); }
pub proof fn lemma_w_constant(d: Seq<u8>, a: u8, b: u8, n: Seq<u8>)
    ensures d.push(a) == d + seq![a], d.push(a).push(b) == d + seq![a, b], d.push(a) + n == d + (seq![a] + n)
{ assert(d.push(a) =~= d + seq![a]); assert(d.push(a).push(b) =~= d + seq![a, b]); assert(d.push(a) + n =~= d + (seq![a] + n)); }
pub proof fn lemma_w_local(d: Seq<u8>, s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures ((d + s) + a) + b == d + ((s + a) + b)
{ assert(((d + s) + a) + b =~= d + ((s + a) + b)); }
pub broadcast proof fn lemma_view_function(f: Function)
    ensures #[trigger] view_function(f) == (Fun {
        source: f.source_file@, line_defined: f.line_defined, last_line_defined: f.last_line_defined,
        upvalue_count: f.upvalue_count, parameter_count: f.parameter_count, is_variadic: f.is_variadic, maximum_stack_size: f.maximum_stack_size,
        instructions: f.instructions@, constants: view_constants(f.constants@), functions: view_functions(f.functions@),
        lines: f.line_info@, locals: view_locals(f.local_variables@), upvalues: view_strings(f.upvalues@),
    })
{ assert(view_function(f).functions =~= view_functions(f.functions@)); }
/// Every instruction takes at least four bytes, and is what some word stands for.
pub proof fn lemma_instructions<T: LuaInstruction>(d: Seq<u8>, o: int, n: int, f: Format, s: crate::Settings, l: InstructionLayout)
    requires 0 <= o
    ensures p_many(o, n, instruction_item::<T>(d, f, s, l)) matches Ok((v, p)) ==> o + 4 * v.len() <= p && (v.len() > 0 ==> p <= d.len())
        && forall|i: int| 0 <= i < v.len() ==> exists|w: u64| T::vx_decode(w, s, l) == Ok::<T, LunifyError>(#[trigger] v[i])
    decreases n
{
    if n > 0 {
        lemma_instructions::<T>(d, o, n - 1, f, s, l);
        let item = instruction_item::<T>(d, f, s, l);
        match p_many(o, n - 1, item) {
            Ok((v, p)) => match item(p) {
                Ok((x, q)) => {
                    let w = p_instruction(d, p, f)->Ok_0.0;
                    assert(decoder::<T>(s, l)(w) == T::vx_decode(w, s, l));
                    assert forall|i: int| 0 <= i < v.push(x).len() implies exists|w: u64| T::vx_decode(w, s, l) == Ok::<T, LunifyError>(#[trigger] v.push(x)[i]) by {
                        if i < v.len() { let j = choose|w: u64| T::vx_decode(w, s, l) == Ok::<T, LunifyError>(v[i]); assert(v.push(x)[i] == v[i]); } else { assert(T::vx_decode(w, s, l) == Ok::<T, LunifyError>(x)); }
                    }
                },
                Err(_) => {},
            },
            Err(_) => {},
        }
    }
}
/// Every constant takes at least one byte.
pub proof fn lemma_constants(d: Seq<u8>, o: int, n: int, f: Format)
    requires 0 <= o
    ensures p_many(o, n, constant_item(d, f)) matches Ok((v, p)) ==> o + v.len() <= p && (v.len() > 0 ==> p <= d.len())
    decreases n
{ if n > 0 { lemma_constants(d, o, n - 1, f); } }
/// What has been read can be converted.
pub broadcast proof fn lemma_instructions51(d: Seq<u8>, o: int, f: Format, s: crate::Settings)
    requires settings_wf(s), 0 <= o, d.len() <= 0x2000_0000
    ensures (#[trigger] p_instructions::<lua51::Instruction>(d, o, f, s, s.lua51.layout)) matches Ok((i, p)) ==> i.len() <= 0x800_0000 && forall|j: int| 0 <= j < i.len() ==> raw51(#[trigger] i[j])
{
    hide(raw51); hide(decode51); hide(p_many);
    match p_integer(d, o, f) {
        Ok((n, p)) => {
            let l = s.lua51.layout;
            lemma_instructions::<lua51::Instruction>(d, p, n as usize as int, f, s, l);
            match p_many(p, n as usize as int, instruction_item::<lua51::Instruction>(d, f, s, l)) {
                Ok((i, q)) => {
                    assert forall|j: int| 0 <= j < i.len() implies raw51(#[trigger] i[j]) by {
                        let w = choose|w: u64| <lua51::Instruction as LuaInstruction>::vx_decode(w, s, l) == Ok::<lua51::Instruction, LunifyError>(i[j]);
                        lemma_decode51(w, s, l);
                    }
                },
                Err(_) => {},
            }
        },
        Err(_) => {},
    }
}
pub broadcast proof fn lemma_instructions50(d: Seq<u8>, o: int, f: Format, s: crate::Settings)
    requires settings_wf(s), 0 <= o, d.len() <= 0x2000_0000
    ensures (#[trigger] p_instructions::<lua50::Instruction>(d, o, f, s, s.lua50.layout)) matches Ok((i, p)) ==> i.len() <= 0x800_0000 && forall|j: int| 0 <= j < i.len() ==> raw50(#[trigger] i[j])
{
    hide(raw50); hide(decode50); hide(p_many);
    match p_integer(d, o, f) {
        Ok((n, p)) => {
            let l = s.lua50.layout;
            lemma_instructions::<lua50::Instruction>(d, p, n as usize as int, f, s, l);
            match p_many(p, n as usize as int, instruction_item::<lua50::Instruction>(d, f, s, l)) {
                Ok((i, q)) => {
                    assert forall|j: int| 0 <= j < i.len() implies raw50(#[trigger] i[j]) by {
                        let w = choose|w: u64| <lua50::Instruction as LuaInstruction>::vx_decode(w, s, l) == Ok::<lua50::Instruction, LunifyError>(i[j]);
                        lemma_decode50(w, s, l);
                    }
                },
                Err(_) => {},
            }
        },
        Err(_) => {},
    }
}
pub broadcast proof fn lemma_constants_few(d: Seq<u8>, o: int, f: Format)
    requires 0 <= o, d.len() <= 0x2000_0000
    ensures (#[trigger] p_constants(d, o, f)) matches Ok((k, p)) ==> k.len() <= 0x2000_0000
{ hide(p_many); match p_integer(d, o, f) { Ok((n, p)) => { lemma_constants(d, p, n as usize as int, f); }, Err(_) => {} } }

/// What `Vec::into_iter().map(..).collect()` does if the function is `to_u64`.
pub proof fn lemma_encode_error<T: LuaInstruction>(i: Seq<T>, n: int, k: int, s: crate::Settings)
    requires n <= k
    ensures encode_all(i, n, s) is Err ==> encode_all(i, k, s) == encode_all(i, n, s)
    decreases k - n
{ if n < k { lemma_encode_error(i, n, k - 1, s); } }
pub proof fn lemma_encode_ok<T: LuaInstruction>(i: Seq<T>, w: Seq<u64>, n: int, s: crate::Settings)
    requires 0 <= n <= i.len(), w.len() >= n, forall|j: int| 0 <= j < n ==> #[trigger] i[j].vx_encode(s) == Ok::<u64, LunifyError>(w[j])
    ensures encode_all(i, n, s) == Ok::<Seq<u64>, LunifyError>(w.subrange(0, n))
    decreases n
{
    if n > 0 {
        lemma_encode_ok(i, w, n - 1, s);
        assert(i[n - 1].vx_encode(s) == Ok::<u64, LunifyError>(w[n - 1]));
        assert(w.subrange(0, n) =~= w.subrange(0, n - 1).push(w[n - 1]));
    } else { assert(w.subrange(0, 0) =~= Seq::empty()); }
}
pub proof fn lemma_encode_all<T: LuaInstruction>(i: Seq<T>, r: Result<Vec<u64>, LunifyError>, s: crate::Settings)
    requires match r {
        Ok(w) => w@.len() == i.len() && forall|j: int| 0 <= j < i.len() ==> #[trigger] i[j].vx_encode(s) == Ok::<u64, LunifyError>(w@[j]),
        Err(e) => exists|k: int| 0 <= k < i.len() && #[trigger] i[k].vx_encode(s) == Err::<u64, LunifyError>(e) && forall|j: int| 0 <= j < k ==> #[trigger] i[j].vx_encode(s) is Ok,
    }
    ensures encode_all(i, i.len() as int, s) == (match r { Ok(w) => Ok(w@), Err(e) => Err(e) })
{
    match r {
        Ok(w) => { lemma_encode_ok(i, w@, i.len() as int, s); assert(w@.subrange(0, i.len() as int) =~= w@); },
        Err(e) => {
            let k = choose|k: int| 0 <= k < i.len() && #[trigger] i[k].vx_encode(s) == Err::<u64, LunifyError>(e) && forall|j: int| 0 <= j < k ==> #[trigger] i[j].vx_encode(s) is Ok;
            let w = Seq::new(k as nat, |j: int| i[j].vx_encode(s)->Ok_0);
            assert forall|j: int| 0 <= j < k implies #[trigger] i[j].vx_encode(s) == Ok::<u64, LunifyError>(w[j]) by {}
            lemma_encode_ok(i, w, k, s);
            lemma_encode_error(i, k + 1, i.len() as int, s);
        },
    }
}

proof fn lemma_signed(l: InstructionLayout, w: u64)
    requires layout_wf(l)
    ensures op_get(l.bx, w) < 0x4000_0000_0000_0000, tight(op_get(l.bx, w) - l.signed_offset)
{
    let n = l.bx.size;
    lemma_get_fits(l.bx, w);
    lemma_signed_offset(l);
    lemma_maximum(n); lemma_maximum((n - 1) as u64);
    assert(2 <= n <= 62 ==> (1u64 << n) == 2 * (1u64 << sub(n, 1)) && (1u64 << sub(n, 1)) <= 0x2000_0000_0000_0000) by (bit_vector);
}
/// Every instruction that was read has operands that are far from overflowing.
#[verifier::spinoff_prover]
pub proof fn lemma_decode51(w: u64, s: crate::Settings, l: InstructionLayout)
    requires layout_wf(l)
    ensures decode51(w, s, l) matches Ok(i) ==> raw51(i)
{
    hide(op_get); hide(maximum); hide(constant_register51);
    lemma_signed(l, w);
    lemma_get_fits(l.a, w); lemma_get_fits(l.b, w); lemma_get_fits(l.c, w);
    lemma_maximum_63(l.a.size); lemma_maximum_63(l.b.size); lemma_maximum_63(l.c.size);
}
#[verifier::spinoff_prover]
pub proof fn lemma_decode50(w: u64, s: crate::Settings, l: InstructionLayout)
    requires layout_wf(l)
    ensures decode50(w, s, l) matches Ok(i) ==> raw50(i)
{
    hide(op_get); hide(maximum); hide(constant_register50);
    lemma_signed(l, w);
    lemma_get_fits(l.a, w); lemma_get_fits(l.b, w); lemma_get_fits(l.c, w);
    lemma_maximum_63(l.a.size); lemma_maximum_63(l.b.size); lemma_maximum_63(l.c.size);
}
}
