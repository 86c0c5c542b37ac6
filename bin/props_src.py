#!/usr/bin/env python3
"""Source of properties.jsonl (run to rewrite it)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why, 'anchors': a})

prop('T01', 'Layout operations keep a token stream in whitespace normal form',
 'However push, line, space, indent, unindent, append and extend are interleaved, a token stream holds exactly the items the combination rules give: repeated spaces and line breaks collapse, a blank line is never weakened to a plain break, indentation changes absorb the whitespace before them and add up (a net change of zero disappears). Text, quote and evaluation markers and imports are never lost, changed or reordered by them.',
 ['histories', 'inputs'], 'every sequence of operations on a token stream, of any length, including streams built separately and added in any way',
 'tests sample a handful of quote! templates; the rules must hold for every history, and mistakes show only for particular neighbours (a space before a push after a line, an indentation change after one that cancels it)',
 ['src/tokens/tokens.rs', 'src/tokens/item.rs'],
 [('space / push / line / indentation', 'src/tokens/tokens.rs'), ('item', 'src/tokens/tokens.rs'), ('extend', 'src/tokens/tokens.rs')],
 [('items', 'the items of a stream', 'Tokens')], ['Tokens::iter', 'Tokens == Vec<Item>'])
prop('T02', 'Walking the imports of a stream yields every import exactly once',
 'Walking the imports of a token stream yields every import that was inserted or registered into it, directly or through streams nested in it, exactly once, whatever text, layout and other imports were added around it.',
 ['histories', 'inputs'], 'every sequence of operations on a token stream, nested streams included',
 'tests walk one stream with two imports; a wrong back reference shows only when imports come from several streams or stand next to layout that is rewritten later',
 ['src/tokens/tokens.rs'],
 [('lang_item / lang_item_register', 'src/tokens/tokens.rs'), ('WalkImports::next', 'src/tokens/tokens.rs')],
 [('last_lang_item', 'position of the last import, chained backwards through the items', 'Tokens')], ['Tokens::walk_imports'])
prop('T03', 'Rebuilding a token stream from its items gives an equal stream',
 'Collecting, extending, appending or cloning all items of a token stream into an empty one, at once or in several consecutive pieces, gives a stream equal to the original: same items in the same order and the same imports found by walking them, whatever an iterator that yields the items says about how many there may be.',
 ['histories', 'inputs'], 'every token stream reachable through the public operations, every way of copying it and every cut into pieces',
 'no test copies a stream item by item; a difference needs a stream whose layout items would be combined differently the second time or whose recorded import positions are reused',
 ['src/tokens/tokens.rs', 'src/tokens/format_into.rs'],
 [('item', 'src/tokens/tokens.rs'), ('extend / from_iter / into_iter', 'src/tokens/tokens.rs')], None, ['Tokens == Tokens', 'Tokens::walk_imports'])
prop('T04', 'Everything put into a token stream adds its own content once, and only that',
 'Whatever value is put into a token stream, the stream afterwards is the stream before followed by exactly the content of that value, combined by the layout rules of T01. A string, in any of its forms and however it is stored, a number, a formatted or displayed value adds one literal with exactly its text. A list adds its elements in order, each once; an absent optional value adds nothing; a token stream adds its items in order; a function adds what one call of it adds. A quoted value adds its content between one opening and one closing quote. An import that is put in, owned or by reference, is added once as a reference to itself; one that is registered is added once as a registration, and a tuple of them registers each once, in order. A comment helper adds each line once, in order, after its comment mark, and adds nothing, or nothing but its frame, for no lines.',
 ['inputs', 'histories'], 'every value of every type that can be put into a stream, nested in any way, and every stream it is put into',
 'tests put a handful of values into empty streams; the guarantee is about twelve integer types, ten string types, tuples of up to eight, ten import types, owned and by reference, over every stream and every nesting',
 ['src/tokens/format_into.rs', 'src/tokens/item_str.rs', 'src/tokens/quoted.rs', 'src/tokens/display.rs', 'src/tokens/static_literal.rs', 'src/tokens/from_fn.rs', 'src/tokens/register.rs', 'src/tokens/internal.rs', 'src/tokens/tokens.rs', 'src/lang/mod.rs', 'src/lang/java/block_comment.rs', 'src/lang/csharp/block_comment.rs', 'src/lang/csharp/comment.rs', 'src/lang/dart/doc_comment.rs'],
 [('FormatInto implementations', 'src/tokens/format_into.rs'), ('quoted, display, static_literal, from_fn, register', 'src/tokens/'), ('impl_lang!', 'src/lang/mod.rs'), ('comment helpers', 'src/lang/*/block_comment.rs, comment.rs, doc_comment.rs')], None, ['Tokens == Tokens', 'Tokens::walk_imports', 'Tokens::format'])
prop('T05', 'Texts, items, streams and imports compare, sort and hash by what they are',
 'Two texts that are put into token streams are equal exactly if their characters are the same, however they are stored, and are ordered as their characters are. Two items, two token streams and two imports of one kind are equal exactly if they are of the same shape and all their parts are equal; a token stream is equal to a list or a slice of items, from either side, exactly if its items are equal to those, one by one and as many. For each of them there is one total order that is consistent with this equality: of two values exactly one of less, equal and greater holds, the opposite holds the other way around, equal is what is equal, less-or-equal is transitive, and partial comparison says the same as total comparison. Values that are equal have the same hash with every hasher. A clone of a value is equal to it.',
 ['inputs'], 'every pair and triple of values of each of the types that can be compared',
 'the sorted and deduplicated import headers and the sets and maps a user keeps of items rest on it; tests compare a few streams of literals, and no test compares imports, orders or hashes anything',
 ['src/tokens/item_str.rs', 'src/tokens/item.rs', 'src/tokens/tokens.rs', 'src/lang/mod.rs', 'src/lang/rust.rs', 'src/lang/js.rs', 'src/lang/python.rs', 'src/lang/nix.rs'],
 [('PartialEq, Ord and Hash of ItemStr, Item and Tokens', 'src/tokens/'), ('PartialEq, Ord and Hash of the import types and of Any', 'src/lang/*')], None, ['Tokens == Tokens', 'Tokens == Vec<Item>'])
prop('F01', 'Formatting applies line breaks, indentation and spaces exactly once',
 'When a token stream is formatted, the text comes out in order and unchanged. Between two pieces of text stands exactly what the layout items between them ask for: one line break for push or a change of indentation, one blank line for line however many are asked for, one space per space item that no line break follows. Every line starts with the current indentation level (never below zero) times the configured unit, spaces or tabs, however deep; blank lines stay empty; nothing is written for layout before the first or after the last text except the first line\'s own indentation and spaces; empty text has no effect on layout.',
 ['inputs', 'histories'], 'every stream of text, layout items and imports, every indentation unit, line terminator and depth, including several streams through one formatter',
 'tests format a few templates two levels deep with four spaces; the rules must hold for every neighbourhood of layout items, depths beyond the static padding tables, tabs and other line terminators',
 ['src/fmt/formatter.rs', 'src/fmt/config.rs', 'src/fmt/mod.rs'],
 [('flush_whitespace', 'src/fmt/formatter.rs'), ('push / line / space / indentation / write_str', 'src/fmt/formatter.rs'), ('format_cursor', 'src/fmt/formatter.rs'), ('Config', 'src/fmt/config.rs')],
 [('line, spaces, indent', 'whitespace still to be written', 'Formatter')], ['Tokens::format'])
prop('F02', 'Nested strings and evaluations render as the tree they were built as',
 'Strings and evaluations nested to any depth render as a tree: text directly inside a string goes through the language\'s string escaping and text anywhere else is written as is; each string gets one opening and one closing quote that agree on whether it contains evaluations; an evaluation holding a single piece of text is rendered through the language\'s literal form and any other evaluation between its start and end forms, with its content laid out outside the string; a string directly inside a string is rendered on its own, quotes included, and the result escaped once as text of the outer string. A closing marker that closes nothing and an evaluation outside a string are refused with an error. A language that says nothing of its own has its strings written between double quotes, their text as it is and their evaluations unmarked.',
 ['inputs'], 'every well nested tree of text, layout, imports, strings, evaluations and strings in strings; every sequence with a stray marker',
 'tests cover one or two levels of nesting in a few languages; frame state left over from one level shows only after leaving a particular nesting',
 ['src/fmt/formatter.rs', 'src/fmt/cursor.rs', 'src/tokens/item_str.rs'],
 [('format_cursor', 'src/fmt/formatter.rs'), ('quoted_quote', 'src/fmt/formatter.rs'), ('Cursor', 'src/fmt/cursor.rs')],
 [('stack of frames', 'in_quote, has_eval, end_on_eval per nesting level', 'Formatter::format_cursor')], ['Tokens::format'])
prop('F03', 'All writers receive the same output and sink errors are never lost',
 'Formatting one stream with the same settings into a string, a list of lines, a byte sink or any text sink gives the same output: the lines joined by the line terminator are the string, and the bytes are its UTF-8. Formatting as a file adds exactly one line terminator at the end of a string or byte sink and no extra entry to a list of lines. The shorthands give what the writers give with default settings. If the sink fails, formatting reports an error; a reported success means everything was written.',
 ['inputs', 'crash_points'], 'every stream, every indentation unit and line terminator, every sink, failing at any write',
 'tests only look at strings and line vectors of short files and never let a sink fail; a lost error or a divergence needs a particular writer, terminator or failing write',
 ['src/fmt/fmt_writer.rs', 'src/fmt/io_writer.rs', 'src/fmt/vec_writer.rs', 'src/fmt/mod.rs', 'src/tokens/tokens.rs', 'src/fmt/formatter.rs'],
 [('write_str / write_line / write_trailing_line', 'src/fmt/fmt_writer.rs, io_writer.rs, vec_writer.rs'), ('to_string / to_vec / to_file_string / to_file_vec / format_file', 'src/tokens/tokens.rs')],
 None, ['FmtWriter', 'IoWriter', 'VecWriter', 'Tokens::format_file'])
prop('Q01', 'C, C#, Go and Python string literals mean exactly the quoted text',
 'Whatever text is put into a string for C, C#, Go or Python, in one piece or several, the literal that is written is a legal literal of that language which the language reads back as exactly that text (C: as its UTF-8 bytes), and it ends exactly at the closing quote.',
 ['inputs'], 'every text: all Unicode characters in every combination, every division into pieces',
 'tests quote one sample string per language; a wrong escape shows only for particular characters, often only for particular neighbours (an escape that swallows the digits after it)',
 ['src/lang/mod.rs', 'src/lang/c.rs', 'src/lang/go.rs', 'src/lang/python.rs', 'src/lang/csharp/mod.rs'],
 [('c_family_write_quoted', 'src/lang/mod.rs'), ('Lang::write_quoted / open_quote / close_quote per language', 'src/lang/*')], None, ['quoted()', '$[str](..)'])
prop('Q02', 'JavaScript and Dart strings mean the quoted text and evaluations',
 'Whatever text and evaluations are put into a string for JavaScript or Dart, the literal that is written is a legal one which the language reads back as exactly that text with exactly those evaluations at their places, and it ends exactly at the closing quote. Text never starts, extends or swallows an evaluation, and the evaluated expression is the whole of what was given.',
 ['inputs'], 'every text with every division into pieces, evaluations anywhere between them',
 'tests interpolate one identifier; what goes wrong depends on the characters around an evaluation and on the shape of the evaluated expression',
 ['src/lang/js.rs', 'src/lang/dart/mod.rs', 'src/lang/mod.rs'],
 [('Lang::write_quoted', 'src/lang/js.rs, src/lang/dart/mod.rs'), ('open_quote / close_quote / start_string_eval / end_string_eval / string_eval_literal', 'src/lang/js.rs, src/lang/dart/mod.rs, src/lang/mod.rs')], None, ['$[str](.. $(expr) ..)'])
prop('Q03', 'Java, Rust, Swift and Nix string literals mean exactly the quoted text',
 'Whatever text is put into a string for Java, Rust, Swift or Nix (which cannot hold NUL), in one piece or several, the literal that is written is a legal literal of that language which the language reads back as exactly that text (Java: as its UTF-16 code units), never as an interpolation, and it ends exactly at the closing quote.',
 ['inputs'], 'every text: all Unicode characters in every combination, every division into pieces',
 'tests quote one sample string per language; a wrong escape shows only for particular characters (controls beyond ASCII, supplementary characters) or neighbours',
 ['src/lang/java/mod.rs', 'src/lang/rust.rs', 'src/lang/swift.rs', 'src/lang/nix.rs', 'src/lang/mod.rs'],
 [('Lang::write_quoted / open_quote / close_quote per language', 'src/lang/*')], None, ['quoted()', '$[str](..)'])
prop('I01', 'C, Go, Swift and Dart files import exactly what they refer to',
 'A formatted C, Go, Swift or Dart file has, before the code and after the package clause, one include or import for every header, package, module or library (Dart: and alias) that an import inserted or registered anywhere in the stream belongs to, none twice and no others (Dart: dart:core only when it is used through an alias, then also without one), and each reference in the code is written the way that import makes it available (Go: last path element, dot, name; Dart: alias, dot, name; otherwise the name). The header does not depend on how often or in what order things were imported.',
 ['inputs', 'histories'], 'every set of imports with any paths, names and aliases, every order and repetition, inserted directly, registered, or through nested streams',
 'tests import two or three things once; duplicates, several aliases of one library or equal paths held in different string forms need particular combinations',
 ['src/lang/c.rs', 'src/lang/go.rs', 'src/lang/swift.rs', 'src/lang/dart/mod.rs', 'src/tokens/item_str.rs'],
 [('imports / format_file / LangItem::format per language', 'src/lang/c.rs, go.rs, swift.rs, dart/mod.rs'), ('ItemStr comparison', 'src/tokens/item_str.rs')], None, ['Tokens::format_file'])
prop('I02', 'Java and C# references resolve to the type they were imported as',
 'In a formatted Java or C# file every reference to an imported type, written simple or qualified, resolves under the language\'s rules to that type, given the imports of the file, the configured package or namespace (C#: and those around it) and the types it is known to have: a name that an import, the own package or an ambiguity would give to something else is written qualified. Unless asked for, a name that is used for one type only is written simple. No name (Java) or namespace (C#) is imported twice, and the header does not depend on how often or in what order things were imported.',
 ['inputs', 'histories'], 'every set of imported types with any packages and names, every configured package, every order and repetition',
 'tests have one clash of two names; hidden and ambiguous names need three types, the own package or java.lang in particular combinations',
 ['src/lang/java/mod.rs', 'src/lang/csharp/mod.rs', 'src/tokens/item_str.rs'],
 [('Java::imports / Import::format', 'src/lang/java/mod.rs'), ('Csharp::imports / Import::format / Config::encloses', 'src/lang/csharp/mod.rs')],
 [('imported', 'what simple names stand for', 'java::Format, csharp::Format')], ['Tokens::format_file'])
prop('I03', 'JavaScript and Python files import what they refer to',
 'In a formatted JavaScript or Python file every reference written in the code names something the header binds: each import inserted or registered anywhere in the stream has its clause (JavaScript: named, named with alias, default or wildcard; Python: from-import with or without alias, or import of the module, qualified or under an alias) in the one statement for its module (or, for wildcards and whole modules, its own), nothing occurs twice, nothing else is imported, and the reference is written as the name that clause binds. The header does not depend on how often or in what order things were imported, except for which of several JavaScript default imports of one module is the default clause.',
 ['inputs', 'histories'], 'every set of imports of every kind with any names and aliases, every order and repetition, inserted directly, registered, or through nested streams',
 'tests use each kind of import once; several kinds for one module, repeated aliases and several defaults need particular combinations',
 ['src/lang/js.rs', 'src/lang/python.rs', 'src/tokens/item_str.rs'],
 [('JavaScript::imports / Import::format', 'src/lang/js.rs'), ('Python::imports / format', 'src/lang/python.rs')], None, ['Tokens::format_file'])
prop('I04', 'Rust files bring every path they refer to into scope exactly once',
 'In a formatted Rust file the use declarations bring into scope, each exactly once, exactly what the imports inserted or registered anywhere in the stream need under the configured or their own import mode (the item, the item under its alias, its module, or its module under an alias), grouped by module without loss; every reference is written relative to what its declaration binds; and nothing is declared for imports of the crate root that need none. The declarations do not depend on how often or in what order things were imported.',
 ['inputs', 'histories'], 'every set of imports with any module paths, names, aliases and import modes, under both default modes, every order and repetition',
 'tests use a few imports of one module; a module that is also imported by name, several aliases of one module, and mixtures of modes need particular combinations',
 ['src/lang/rust.rs', 'src/tokens/item_str.rs'],
 [('Rust::imports', 'src/lang/rust.rs'), ('Import::format / write_prefixed / write_direct', 'src/lang/rust.rs')], None, ['Tokens::format_file'])
prop('I05', 'Nix files bind every name they use, also in the values of variables',
 'In a formatted Nix file every name written by an import that is inserted or registered anywhere in the stream, or in the value of a variable at any depth, is bound: it is an argument of the file (unless the configuration says the file is scoped, the first part of its path is), and where it is inherited, a variable, or available through a with, the let block or a with line says so. Each argument, with, inherit and variable occurs once, there are no others, blocks without content are left out, and the header does not depend on how often or in what order things were imported.',
 ['inputs', 'histories'], 'every set of imports of the four kinds with any paths and names, variables nested to any depth, every order and repetition, scoped or not',
 'tests nest one import in one variable; deeper nesting, repeated and shared paths need particular combinations',
 ['src/lang/nix.rs', 'src/tokens/item_str.rs'],
 [('Nix::collect / arguments / withs / imports / format_file', 'src/lang/nix.rs')], None, ['Tokens::format_file'])
prop('M01', 'quote! keeps text verbatim and turns whitespace into the same layout',
 'A token stream built by quote!, quote_in! or quote_fn! holds the text of every token of the body, in order and unchanged, and between two of them what the body shows: nothing if they touch, one space for any distance on a line, a line break for the next line, an empty line for any number of lines left empty, and the indentation a line has relative to the lines around it, one level in or any number of levels back, however wide the levels are. Nothing is written before the first or after the last token, and all levels are closed at the end, also where the body is a branch, loop or other nested region. A body whose indentation matches no enclosing level is refused by the compiler, and no other.',
 ['inputs'], 'every body: any tokens and groups, at any columns and distances, nested regions included',
 'tests have a few dozen bodies indented by four; widths, mixed levels, several levels at once, and blank lines together with changes of level need particular combinations',
 ['genco-macros/src/encoder.rs', 'genco-macros/src/static_buffer.rs', 'genco-macros/src/cursor.rs', 'genco-macros/src/quote.rs', 'genco-macros/src/ast.rs'],
 [('Encoder::step / from / tokenize_whitespace / finalize / into_output', 'genco-macros/src/encoder.rs'), ('StaticBuffer::push_str / flush', 'genco-macros/src/static_buffer.rs'), ('Quote::parse_inner', 'genco-macros/src/quote.rs')],
 [('indents', 'the columns of the enclosing levels', 'Encoder'), ('last', 'where what has been encoded ends', 'Encoder')], ['Tokens built by quote!, quote_in!, quote_fn!'])
prop('M02', 'Strings in quote! hold exactly what stands between the quotes',
 'A string written as $[str](..) or with quotes in a body of quote! becomes one string of the output: its text is the source between the delimiters with every space kept, first, last and next to evaluations and inside groups, $$ is one dollar, $[const](..) the constant, and each $ident and $(expr) is evaluated where it stands, between markers that no text crosses. A string with evaluations is accepted only for languages that support them, a string that breaks over lines is refused, and everything else is accepted.',
 ['inputs'], 'every string: any tokens, groups, spaces, constants and evaluations, evaluations nested to any depth',
 'tests interpolate one identifier in the middle of a string; spaces at the ends, groups and neighbours of evaluations are not among them',
 ['genco-macros/src/string_parser.rs', 'genco-macros/src/quote.rs', 'genco-macros/src/encoder.rs', 'genco-macros/src/requirements.rs'],
 [('Encoder::flush / flush_whitespace / encode_char / encode_str / extend_tt / eval_ident / eval_stream / raw_expr / finalize', 'genco-macros/src/string_parser.rs'), ('Encoder::encode_string', 'genco-macros/src/encoder.rs'), ('Requirements', 'genco-macros/src/requirements.rs')],
 [('cursor', 'where the last part ended', 'string_parser::Encoder'), ('has_eval', 'whether there is an evaluation', 'string_parser::Options')], ['Tokens built by $[str](..)'])
prop('M03', 'Control flow in quote! writes what the Rust code it stands for would',
 'In a body of quote!, for writes its body once per item in order, with what join gives between two items and not after the last; if, else if and else write the body of the first branch that holds; match writes the body of the first arm that matches, its guard and attributes respected; let and scopes bind what follows; $name, $(expr) and imports are written, and code is run, where they stand: expressions are evaluated as often and in the order that this Rust code would evaluate them, and text before them is written before them.',
 ['inputs'], 'every body: control items nested in one another to any depth, with any expressions, patterns, text and whitespace around them',
 'tests use each construct once on its own; evaluation order, joins of loops in loops, guards and attributes of arms need particular combinations',
 ['genco-macros/src/encoder.rs', 'genco-macros/src/quote.rs', 'genco-macros/src/ast.rs', 'genco-macros/src/static_buffer.rs'],
 [('Encoder::encode_repeat / encode_condition / encode_match / encode_let / encode_scope / encode_eval / encode_eval_ident', 'genco-macros/src/encoder.rs'), ('Quote::parse_loop / parse_condition / parse_match / parse_let', 'genco-macros/src/quote.rs')],
 [('item_buffer', 'text that waits to be written', 'Encoder')], ['Tokens built by quote!'])
if __name__ == '__main__':
    H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(H + '/properties.jsonl', 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
