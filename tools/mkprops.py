"""Writes properties.jsonl (kept as code so that the text is easy to edit)."""
import json
import os

P = []


def prop(id, title, statement, over, q, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": q},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


CORE = "src/reparsec/core/"
COMB = CORE + "combinators.py"

prop(
    "C01", "Plain parsing accepts exactly the specified inputs and values",
    "For every well-formed parser built from the public combinators and every input, parsing without recovery succeeds exactly when the predictive ordered-choice reading of the grammar does (an alternative, optional or repetition is abandoned only if the failing branch consumed nothing, unless wrapped in attempt), and returns exactly the value that reading assigns. Input left over where the parser stops is ignored unless the grammar asks for eof, and a repetition whose body succeeds on empty input raises RuntimeError instead of looping.",
    ["programs", "inputs"],
    "all grammars over sym/satisfy/letter/digit/eof/literal/regexp/token/token_ins/Pure/PureFn/unexpected closed under seq, seql, seqr, then/apply tuples, alt, maybe, many, sep_by, between, chainl1, chainr1, attempt, label, fmap, bind, recover*, Delay (no left recursion) x all finite inputs (element lists, strings, lexer tokens)",
    "The suite runs a few dozen fixed parsers on fixed strings; commit/backtrack behaviour is a property of how combinators nest, which needs arbitrary nestings and inputs.",
    [COMB, CORE + "result.py", CORE + "sequence.py", CORE + "scannerless.py", "src/reparsec/parser.py", CORE + "primitive.py"],
    [("consumed flag threading", COMB + ": *_fast"), ("terminals", CORE + "sequence.py, scannerless.py")],
    ["Parser.parse(stream).unwrap()"],
)
prop(
    "C02", "A failed plain parse reports the one right location and expectations",
    "For every well-formed parser and every rejected input, parsing without recovery raises ParseError with exactly one error item, without a repair operation, located where the branch the parser had committed to failed (for a choice in which no branch consumed input: where its first branch failed). Its expected list consists, in grammar order, of the expectations of everything that ended or was passed over since input was last consumed (optionals, finished repetitions, earlier alternatives) and then of the failing parser; label() replaces the list of a parser that consumed nothing and leaves that of one that did.",
    ["programs", "inputs"],
    "all grammars of C01 x all rejected inputs",
    "Expected lists are merged through every combinator; tests pin a few messages of small parsers and cannot cover the nesting of labels, optionals, repetitions and empty successes.",
    [COMB, CORE + "result.py", CORE + "chain.py", "src/reparsec/types.py", CORE + "sequence.py", CORE + "scannerless.py"],
    [("expected merging", CORE + "result.py: prepend_expected/set_expected"), ("Append", CORE + "chain.py")],
    ["ParseError.errors of Parser.parse(stream).unwrap()"],
)
prop(
    "C03", "Turning recovery on never changes the verdict on an input",
    "For every parser and input, parse(recover=True) succeeds without errors exactly when parse() does and then with the same value, and unwrap() of a repaired parse still raises ParseError, so invalid input is never silently accepted. Without recovery, recover(), recover_with(), recover_with_fn(), token_ins() and max_insertions have no effect on value or error; for parsers without attempt the first error reported with recovery is at the same location and with the same expected list as the error reported without it.",
    ["programs", "inputs", "configurations"],
    "all grammars of C01 (and layout grammars) x all inputs x recover on/off x max_insertions",
    "Plain and recovering parsing are separate code paths for every combinator; the suite compares them on a handful of inputs only.",
    [COMB, CORE + "recovery.py", CORE + "sequence.py", CORE + "scannerless.py", "src/reparsec/types.py", "src/reparsec/parser.py"],
    [("dual fast/recovering functions", COMB), ("ParseResult.unwrap", "src/reparsec/types.py")],
    ["Parser.parse(stream, recover=...).unwrap(recover=...)"],
)
prop(
    "C04", "A repaired value is the parse of the input with the reported edits",
    "Whenever recovery yields a value, applying exactly the reported operations to the input (delete the skipped elements, insert the named elements, at the reported locations) gives a sequence that the grammar, read as an unordered context-free grammar, derives with exactly that value: no element is lost, duplicated or invented without being reported. Skipped regions and remaining input do not overlap and together account for every element up to where the parser stopped.",
    ["programs", "inputs"],
    "all grammars of C01 (and layout grammars; eof and columns refer to the original input) x all inputs for which a repair is found x max_insertions",
    "Which value and which edits come out depends on the interplay of every combinator with every candidate repair; the suite checks about fifty fixed (parser, input) pairs.",
    [CORE + "recovery.py", CORE + "repair.py", COMB, CORE + "sequence.py", CORE + "scannerless.py", "src/reparsec/types.py"],
    [("continue_parse", CORE + "recovery.py"), ("make_insert/make_skip", CORE + "repair.py")],
    ["unwrap() errors vs unwrap(recover=True) value"],
)
prop(
    "C05", "Recovery reports are well formed, ordered and complete",
    "For every recovered parse, every error item carries a repair operation, positions lie inside the input in nondecreasing order, a later item never falls inside the region skipped by an earlier one, skip counts are positive and stay within the input, the report lists every operation of the repair that produced the value, and every loc_str is fmt_loc(loc). If no repair exists the report is a single item without operation (for parsers without attempt the same as without recovery), and unwrap(recover=True) raises exactly in that case.",
    ["programs", "inputs", "configurations"],
    "all grammars of C01 (and layout grammars) x all inputs x max_insertions x location functions",
    "Needs arbitrary multi-error inputs; the suite has few inputs with more than two errors.",
    [CORE + "recovery.py", CORE + "repair.py", "src/reparsec/types.py", COMB],
    [("_join_ops", CORE + "recovery.py"), ("ResultWrapper.unwrap", "src/reparsec/types.py")],
    ["ParseError.errors with recover=True"],
)
prop(
    "C06", "max_insertions bounds consecutive insertions, and only those",
    "With max_insertions=k a repair never inserts more than k elements without consuming an element of the input in between (default k is 5, and k=0 disables insertion, including recover_with, recover_with_fn and token_ins). Up to k consecutive missing elements are repaired by insertion, consuming input restores the full allowance, and skips are not limited.",
    ["programs", "inputs", "configurations"],
    "all grammars x all inputs x all max_insertions >= 0",
    "The suite uses one or two limits on one parser; the allowance must be carried through every combinator and restored at every consumption.",
    [CORE + "sequence.py", CORE + "scannerless.py", CORE + "repair.py", CORE + "recovery.py", COMB, "src/reparsec/parser.py"],
    [("ins/rem counters", COMB), ("Repair.ins", CORE + "repair.py")],
    ["ParseError.errors with recover=True, max_insertions=k"],
)
prop(
    "C07", "Recovery picks the specified repair",
    "Among the candidate repairs (insert a missing sym/literal/recover_with value, skip to the next match, or at eof skip the rest; a later branch of a choice contributes skips, and its insertions only where recover/recover_with/recover_with_fn opts in or no earlier branch could begin a repair), recovery selects the one with the fewest total inserted plus skipped elements, then the one reaching furthest, then one that begins with a skip or an opted-in insertion over one that begins with any other insertion, then the first in grammar order. The returned value, operations, locations and per-error expected lists are exactly those of that candidate.",
    ["programs", "inputs", "configurations"],
    "all grammars of C01 (and layout grammars) x all inputs x max_insertions",
    "Candidate sets grow combinatorially with grammar nesting and errors; the suite checks selection in a few hand-made cases.",
    [CORE + "recovery.py", CORE + "repair.py", COMB, CORE + "sequence.py", CORE + "scannerless.py", "src/reparsec/types.py"],
    [("join_repairs", CORE + "recovery.py"), ("min over repairs", "src/reparsec/types.py")],
    ["unwrap() errors and unwrap(recover=True) value"],
)
prop(
    "C08", "Reported line, column and position match the text",
    "For every error, lexer token and inserted token, pos is the true offset, line the number of newlines before it and col the distance to the last newline, whichever combinators, skips, insertions or newlines precede it; scannerless.parse and lexer.parse (which takes the location from the token there, or the end of the last one, wherever the tokens claim to lie) render it as 1-based line:column and Parser.parse as the stream offset. A user get_loc is only ever asked to move forward from a location it produced itself (or the origin) and the result is the same whether it is incremental or computed from scratch; fmt_loc is applied to exactly the reported location.",
    ["inputs", "programs", "configurations"],
    "all texts (any mix of newlines, CR, tabs, unicode) x grammars consuming them through literal/regexp/sym/satisfy/tokens x recover on/off x location functions",
    "Locations are updated incrementally from cached positions; tests use a few one- or two-line inputs.",
    [CORE + "types.py", CORE + "scannerless.py", "src/reparsec/lexer.py", "src/reparsec/scannerless.py", "src/reparsec/parser.py", CORE + "result.py", COMB],
    [("Ctx.update_loc/get_loc", CORE + "types.py"), ("get_loc", CORE + "scannerless.py"), ("_loc_from_stream", "src/reparsec/lexer.py")],
    ["ErrorItem.loc, ErrorItem.loc_str, Token.start, Token.end"],
)
prop(
    "C09", "The lexer splits text exactly as the specification says",
    "For every specification and source, split_tokens yields exactly the successive matches of the pattern from the start to the end of the source, one token per match whose last matched group is named (kind = group name, value = that group's text, start/end = location of the whole match), and nothing for other matches. If the pattern does not match, or matches the empty string, it raises LexError at exactly that location, and it always terminates. token(kind) accepts exactly the tokens of that kind and returns the token itself; tokens are equal exactly when kind and value are, wherever they lie, and one made without locations is at the origin.",
    ["inputs", "programs"],
    "all regular expressions with named/nested/optional groups x all source texts",
    "The suite tokenizes a few short strings with two fixed specifications, all single-line or short.",
    ["src/reparsec/lexer.py"],
    [("iter_tokens", "src/reparsec/lexer.py")],
    ["split_tokens, LexError.loc, str(LexError)"],
)
prop(
    "C10", "Layout combinators accept exactly column-consistent input",
    "block(p) runs p with the column mark at the current column and restores the previous mark afterwards; aligned(p) runs p only if the current column equals the mark; indented(d, p) runs p only if the current column is the mark plus d, marking the new column for p; otherwise they fail without consuming, expecting 'indentation'. This holds for scannerless text and for lexer tokens alike, at any nesting, after any consumed, skipped or inserted input, and with recovery on or off.",
    ["inputs", "programs"],
    "all grammars with block/aligned/indented at any nesting x all texts and token streams",
    "test_layout.py uses one or two fixed grammars, without the lexer and almost without recovery; marks and columns are context that leaks through sequencing in specific nestings.",
    [CORE + "layout.py", "src/reparsec/layout.py", CORE + "types.py", CORE + "result.py"],
    [("mark save/restore", CORE + "layout.py: set_ctx/set_mark"), ("column", CORE + "types.py: Ctx")],
    ["scannerless.parse / lexer.parse with layout parsers"],
)
prop(
    "C11", "Parsers and results are pure: no history or sharing effects",
    "Parsing with a given parser and input gives the same outcome whatever was parsed, built, unwrapped, failed or interrupted by a user exception before or meanwhile (including re-entrant parses from inside callbacks and interleaved parses in other threads), wherever else its parts are shared, and the input is never modified. Unwrapping a result repeatedly, in any mode and order, gives equal answers, and mutating a returned value or error report does not affect other results or later parses; exceptions raised by user functions propagate unchanged (StopIteration excepted, which Python itself rewrites in generators).",
    ["histories", "programs", "inputs"],
    "all interleavings of building, parsing, unwrapping, mutating results, nested parses and failing callbacks over shared sub-parsers",
    "Tests build a parser, parse once or twice and look once; state leaking between parses or lazily built error reports needs histories.",
    [COMB, CORE + "repair.py", CORE + "recovery.py", "src/reparsec/types.py", CORE + "result.py", "src/reparsec/parser.py"],
    [("lazy expected chains", CORE + "chain.py"), ("in-place op updates", CORE + "repair.py: ops_set_expected"), ("list(expected) copies", "src/reparsec/types.py")],
    ["outcomes of repeated parse/unwrap calls"],
)
prop(
    "C12", "Delay behaves as the parser it is defined to be",
    "A Delay, wherever it is used before or after its definition, behaves in values, errors and repairs exactly like the parser it was defined with, so recursive and mutually recursive grammars behave like their unrollings. Parsing through an undefined Delay raises RuntimeError, defining it a second time raises RuntimeError and leaves the first definition in force.",
    ["programs", "inputs", "histories"],
    "all recursive grammars and definition orders x all inputs x recover on/off",
    "The suite has one recursive shape per example language and one test per Delay error.",
    ["src/reparsec/parser.py"],
    [("Delay.define / to_fns / parse_fn", "src/reparsec/parser.py")],
    ["Delay.define, Parser.parse"],
)
prop(
    "C13", "Derived combinators and alternative spellings mean the same thing",
    "sep_by, between, chainl1, chainr1 and then/apply tuples of two to eight parsers agree in value, errors and repairs with their definitions by seq, many, maybe and fmap (chainl1 folds left, chainr1 folds right, tuples keep order and stay flat). The operator, method and function spellings of every combinator are interchangeable.",
    ["programs", "inputs"],
    "all operands x all combinators and spellings x all inputs x recover on/off",
    "The suite exercises each derived combinator with one-character operands and two or three inputs; tuple arities only on success.",
    ["src/reparsec/parser.py", COMB],
    [("chainl1/chainr1 reducers", "src/reparsec/parser.py"), ("tuple3..tuple8", COMB)],
    ["Parser.parse"],
)
prop(
    "C14", "Sequence parsers are generic in the kind of stream and element",
    "sym, satisfy, eof and all combinators depend only on the order and equality of the elements: the same elements presented as list, tuple, string, bytes, range, deque-like or any other Sequence give the same outcome, and consistently renaming elements renames values, inserted elements and labels and changes nothing else. Elements may be any values, including falsy, None, unhashable or cross-type-equal ones; a matched element is returned as the stream's own object and an inserted one as the object given to sym, and what == or a satisfy predicate returns counts by its truth value.",
    ["inputs", "programs"],
    "all sequence types and element values x all grammars over sym/satisfy x recover on/off",
    "The suite parses only strings and lexer tokens.",
    [CORE + "sequence.py", COMB, CORE + "scannerless.py"],
    [("indexing and len only", CORE + "sequence.py")],
    ["Parser.parse on arbitrary sequences"],
)
prop(
    "C15", "Error messages render every report faithfully",
    "ErrorItem.msg is 'at LOC: ' followed by 'unexpected input' for an empty expected list, 'expected X' for one entry and 'expected A, B or C' for more, plus '(skipped N token(s))' or '(inserted LABEL)' when there is an operation; str(ParseError) joins the messages of all its items, in order, with ', '. str(LexError) is 'Lexing error at LINE:COL', 1-based, and the text and fields agree for every error produced by a parse.",
    ["inputs"],
    "all error reports: any number of items, expected entries (any text), operations, locations",
    "The suite pins a few messages.",
    ["src/reparsec/types.py", "src/reparsec/lexer.py"],
    [("ErrorItem.msg", "src/reparsec/types.py"), ("LexError.__str__", "src/reparsec/lexer.py")],
    ["ErrorItem.msg, str(ParseError), str(LexError)"],
)
prop(
    "C16", "Whole languages parse to the right values and repairs re-parse",
    "Realistic parsers (JSON through lexer and scannerless, arithmetic with precedence and parentheses, an indentation-sensitive tree language, a statement language with separators) written with the library return, for every valid document in any formatting, exactly the value an independent implementation computes, and reject every document that implementation rejects. For a corrupted document, recovery that yields a value yields the value of the document with the reported edits applied.",
    ["inputs"],
    "all documents of the example languages (any nesting and size) and corruptions of them",
    "The example tests use around ten short documents each.",
    ["src/reparsec/parser.py", COMB, "src/reparsec/lexer.py", "src/reparsec/scannerless.py", "src/reparsec/layout.py"],
    [("all combinators together", "src/reparsec")],
    ["Parser.parse / lexer.parse / scannerless.parse on documents"],
)
prop(
    "C17", "Parsing terminates and scales; only documented exceptions escape",
    "On any finite input a parser without left recursion terminates, in plain mode testing each element a bounded number of times for repetitions, separated lists and operator chains and without exhausting Python's default recursion limit on long flat input (with recovery on as well when the input is valid or has few errors). The only exceptions are ParseError from unwrap, RuntimeError for repetition over an empty match or an undefined Delay, ValueError for an empty literal, LexError from the lexer, and those of user functions.",
    ["inputs", "programs"],
    "all long flat inputs (thousands of elements) for repetition-like grammars; all grammars x arbitrary (also hostile) inputs",
    "The suite's longest input is a few dozen characters.",
    [COMB, "src/reparsec/parser.py", CORE + "recovery.py", CORE + "scannerless.py", CORE + "chain.py"],
    [("iterative many", COMB + ": _many, _many_fast"), ("iterative chain reducers", "src/reparsec/parser.py")],
    ["Parser.parse, unwrap"],
)
prop(
    "C18", "ParseResult.fmap transforms the value and nothing else",
    "result.fmap(f).unwrap(...) equals f applied to result.unwrap(...) whenever the latter returns, for plain, successful, failed and repaired results and any chain of fmaps, and otherwise raises the same ParseError with identical items and rendering. fmap leaves the original result usable and unchanged, and on every parser p, p.fmap(f).parse(x) and p.parse(x).fmap(f) are the same result.",
    ["programs", "inputs", "histories"],
    "all parsers x inputs x recover on/off x chains of functions",
    "The suite never calls fmap on a repaired or failed result.",
    ["src/reparsec/types.py", CORE + "result.py"],
    [("ResultWrapper.fmap", "src/reparsec/types.py"), ("Ok/Error/Recovered.fmap", CORE + "result.py")],
    ["ParseResult.fmap, ParseResult.unwrap"],
)
prop(
    "C19", "Combinators obey their algebraic laws",
    "For all parsers and inputs, equal in value and error report, with and without recovery: sequencing is associative up to re-bracketing; Pure is its unit, bind satisfies the monad laws and fmap the functor laws; choice and unexpected interact as ordered choice (a choice is associative, its left branch wins, adding an alternative after a branch that succeeds by consuming changes nothing); many(p) equals one p followed by many(p) or nothing; maybe(p) equals p or Pure(None); attempt is idempotent and label keeps only the outermost label. seql and seqr are seq with one half dropped.",
    ["programs", "inputs"],
    "all parsers p, q, r, functions f, g and inputs, plain and recovering",
    "Laws quantify over all parsers; no test states one.",
    [COMB, CORE + "result.py", CORE + "primitive.py", "src/reparsec/primitive.py"],
    [("prepend_expected, consumed flags", CORE + "result.py")],
    ["Parser.parse"],
)
prop(
    "C20", "User functions run on what was parsed, once, and on nothing else",
    "Without recovery, the functions given to fmap, bind, apply and PureFn are called once for each time their parser succeeds along the predictive left-to-right parse, in that order and with exactly the values parsed there (and, in a parse in which every chain it starts parses, the operators of the chains once per link); branches that are never tried call nothing. Predicates of satisfy are only ever called with elements of the stream, at places where their parser is tried (during recovery also with the elements looked at to skip, up to the first that matches). With recovery, functions may run again for candidate repairs, but only with values of parses and repairs that exist, and for valid input exactly the calls of the plain parse happen; recover_with_fn is called only when its parser failed without consuming and an insertion is allowed, with the stream itself and the position of the failure. All calls happen inside parse(), none in unwrap().",
    ["programs", "inputs"],
    "all grammars with user functions x all inputs x recover on/off",
    "Tests pass pure functions and look at results; superfluous, missing or misplaced calls of functions with effects or preconditions (int, dict lookups) show only on inputs that reach them.",
    [COMB, CORE + "sequence.py", CORE + "result.py", CORE + "recovery.py", CORE + "primitive.py", "src/reparsec/parser.py"],
    [("fmap over results", CORE + "result.py"), ("bind, alt, many evaluation order", COMB), ("skip scan", CORE + "sequence.py: _satisfy")],
    ["calls of user functions during Parser.parse and unwrap"],
)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
