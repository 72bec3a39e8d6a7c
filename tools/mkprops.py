#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so it is easy to review and diff)."""
import json, os
G="askama_derive/src/generator.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,
           quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                        observe_at=observe or ["rendered text of a derived template"],hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","HTML escaping happens exactly once, for every expression not marked safe",
  "In a template whose escaper is HTML, the text that an expression displays appears in the output with every `<`, `>`, `&`, `\"` and `'` replaced by its entity exactly once and every other character unchanged, wherever the expression stands (top level, branch, loop, macro, block, include, filter block); with the text escaper it appears unchanged. "
  "Only a last filter of `safe` (text unchanged) or `escape`/`e` (escaped with the template's or the named escaper) changes that, and `safe` followed by another filter is escaped again. "
  "The output does not depend on how the displayed value splits its text into writes.",
  ["inputs","programs"],"for every displayed text over an alphabet with all special characters and multi-byte characters, every split of it into writes, every filter chain and every position of the expression in a template",
  "tests sample a few strings, never a value that writes its text in several pieces, and only some positions; the guarantee is over all texts and all programs",
  ["askama_escape/src/lib.rs",G,"askama/src/filters/mod.rs"],
  [("Html::write_escaped byte table","askama_escape/src/lib.rs"),("MarkupDisplay::new_unsafe wrapping","Generator::named_expression"),("safe/escape filters","_visit_safe_filter/_visit_escape_filter")])

p("C02","Template text outside tags is reproduced verbatim and in order",
  "Apart from whitespace control and the loss of one final newline of a template file, every character of template text outside tags appears in the output verbatim, in order and exactly once, whatever it is (braces, quotes, backslashes, format directives, multi-byte characters, stray delimiters). "
  "Comments, also nested ones, produce nothing and swallow nothing outside themselves; the contents of a raw block appear verbatim even where they look like tags, comments or expressions. "
  "String, character, number and boolean literals in expressions display the value their Rust spelling denotes.",
  ["inputs","programs"],"for every sequence of literal pieces over an alphabet of awkward characters, interleaved with tags, comments and raw blocks",
  "tests use a few benign literals; the property is over all texts and all neighbouring tags",
  ["askama_parser/src/lib.rs","askama_parser/src/node.rs",G,"askama_derive/src/input.rs"],
  [("Lit::parse/split_ws_parts","askama_parser/src/node.rs"),("format-string brace doubling","Generator::prepare_format"),("Comment::parse, Raw::parse","askama_parser/src/node.rs")])

p("C03","Whitespace control removes exactly the whitespace the tag marks ask for",
  "Whitespace next to a tag is kept, removed or reduced to one character (a newline if it contains one, else a space) exactly as the `+`, `-` or `~` mark on that side of that tag says, or as the configured default says where there is no mark; a side without a mark follows the default. Where a run of whitespace stands alone between two tags, the marks on both its sides apply: removing wins over reducing, reducing over keeping. "
  "This holds for every kind of tag (expressions, comments, control, raw, macro, call, include, block, filter), depends only on the marks and the text next to it and never changes non-whitespace text.",
  ["programs","configurations"],"for every pair of neighbouring tags of every kind, all marks on both, every whitespace run between them, all three configured defaults, at start and end of bodies and templates",
  "tests cover `+`/`-` for some kinds of tags only; the space of (tag kind, mark, whitespace, default, mark, tag kind) is far larger and bookkeeping is per tag kind",
  [G,"askama_parser/src/node.rs","askama_derive/src/config.rs","book/src/template_syntax.md"],
  [("flush_ws/prepare_ws/handle_ws/visit_lit","Generator"),("should_trim_ws","Generator")],
  state=[("next_ws","whitespace suffix of the last literal, pending the next tag","Generator.next_ws"),("skip_ws","what to do with the prefix whitespace of the next literal","Generator.skip_ws")])

p("C04","if/elif/else chains and match render exactly the first branch that applies",
  "Of an `if` chain exactly the first branch whose condition is true (or whose `let` pattern matches) is rendered, else the `else` branch, else nothing; conditions after the one taken are not evaluated and those before it are evaluated once, in order. "
  "Of a `match` exactly the first arm whose pattern matches is rendered, `else`/`_` taking any value, and the scrutinee is evaluated once. "
  "Names bound by a pattern denote the matched parts inside that arm only.",
  ["programs","inputs"],"for every nesting of if/elif/else, if-let and match with literal, tuple, Option/enum-variant, struct and wildcard patterns, and every value of the tested data",
  "tests check single constructs with one or two values; the property is over all nestings, arm orders and values, and no test counts evaluations",
  [G,"askama_parser/src/node.rs"],[("write_if","Generator"),("write_match","Generator"),("visit_target","Generator")])

p("C05","A for loop renders its body once per selected item, in order, with right loop.*",
  "A `for` body is rendered once for each item, in iteration order, that satisfies the loop's `if` condition; `loop.index`, `loop.index0`, `loop.first`, `loop.last` and `loop.cycle(..)` describe the item's position among those selected, and always refer to the innermost enclosing loop whose body the expression stands in. "
  "`break` ends and `continue` skips the rest of the innermost body, keeping what was already rendered. "
  "The loop's `else` body is rendered exactly when no item was selected.",
  ["programs","inputs"],"for every nesting of loops with conditions, else, break/continue and loop.* over lists, ranges and tuples of every small length (0,1,2,3,...)",
  "tests use a handful of fixed lists; the property is over all lists, nestings and positions of break/continue",
  [G,"askama/src/helpers.rs"],[("write_loop","Generator"),("TemplateLoop","askama/src/helpers.rs"),("visit_attr loop.*","Generator")])

p("C06","Names show the value they had where the expression stands",
  "An expression shows the value that its names have at the point of the template where it stands: a `let` (single name, tuple, or declared first and assigned in branches) takes effect for what follows it and for nothing before it, and shadows fields and outer bindings of that name. "
  "Bindings made inside an if, for, match, macro or block body are gone after that body, where the outer values show again. "
  "All this also holds for names that are Rust keywords.",
  ["programs"],"for every sequence and nesting of expressions, lets, shadowing lets, tuple lets, deferred lets and scoping constructs over few names",
  "the generator defers output and re-resolves names later, so errors need specific sequences (an expression, then a shadowing let, with no flush between) that tests do not enumerate",
  [G],[("write_let/is_shadowing_variable","Generator"),("MapChain resolve","Generator"),("write_buf_writable","Generator"),("normalize_identifier",G)],
  state=[("locals","names in scope and what they resolve to","Generator.locals"),("buf_writable","literals and expressions not yet written","Generator.buf_writable")])

p("C07","Template inheritance: the most derived block wins; super() is the next one up",
  "Rendering a template that extends others (any number of levels) gives the root template's text with each block replaced by its most derived definition, wherever in the root or in another block it is placed, and unchanged where nobody overrides it. "
  "`super()` gives the definition of the same block one level up, and each further `super()` one more; a block body sees the template's fields but not the locals that surround its placement, and its own locals are not visible after it. "
  "Text of a child outside its blocks is not rendered.",
  ["programs"],"for every chain of up to several templates, every set of overridden, nested and newly introduced blocks, and every use of super()",
  "tests have fixed two- and three-level chains; combinations of nesting, overriding and super are not enumerated",
  ["askama_derive/src/heritage.rs",G],[("Heritage::new","askama_derive/src/heritage.rs"),("write_block","Generator"),("Context::new","askama_derive/src/heritage.rs")])

p("C08","A block fragment renders exactly that block",
  "Deriving a template with `block = \"name\"` renders exactly what the (most derived) definition of that block renders inside the full template, including nested blocks and super(), and nothing else; this holds also for a block nested in other blocks (blocks stand at the top level of their file or directly within other blocks).",
  ["programs"],"for every template of the inheritance model and every block in it",
  "tests check a few fragments; which pending output is discarded depends on what precedes, follows and nests in the block",
  [G],[("WritableBuffer.discard / Buffer.discard","write_block")])

p("C09","Calling a macro renders its body with the call's arguments",
  "`{% call m(args) %}` renders the macro's body with each parameter denoting the value of its argument (positional in order, or by name), where argument expressions are evaluated in the caller's scope, whatever names caller and macro use, and computed arguments are evaluated once per call; other names in the caller are unaffected afterwards. "
  "The same holds through nested calls, loops and macros imported from other files under a scope name.",
  ["programs"],"for every set of macros and calls with permuted, repeated, named and computed arguments, nested calls and imported scopes",
  "tests call macros with arguments whose names differ from the parameters; aliasing errors need name clashes between caller and callee",
  [G,"askama_parser/src/node.rs"],[("write_call","Generator"),("imports/macros maps","askama_derive/src/heritage.rs")])

p("C10","include and import use the right file and splice its rendering in place",
  "`{% include \"p\" %}` renders template file p (as its own text would, with the includer's visible names) at that place, and bindings made in the included file are not visible after it. "
  "A path in include, import or extends denotes the file found relative to the directory of the file it is written in, else in the configured template directories in their order; this holds at any depth of nesting.",
  ["programs","configurations"],"for every small tree of template files in nested directories with same-named files, and every graph of includes, imports and extends among them",
  "tests include files that sit in one directory; errors need a nested file whose relative path resolves differently from the root's",
  [G,"askama_derive/src/config.rs","askama_derive/src/input.rs"],[("handle_include","Generator"),("Config::find_template","askama_derive/src/config.rs"),("find_used_templates","askama_derive/src/input.rs")])

p("C11","Expressions mean what the operators' precedence and associativity say",
  "An expression evaluates to the value given by Rust's operator precedence and left associativity (with `|filter` binding tighter than any binary operator, and postfix call, index, field and `?` tighter still), with parentheses overriding; `&&` and `||` short-circuit. "
  "Comparison, arithmetic, bit, logic, unary, range, tuple, array, index, call and filter forms may be combined freely (a filter's `|` directly follows its operand, a bit-or is surrounded by spaces, and a bit-or directly after a filter needs parentheses).",
  ["programs","inputs"],"for every well-typed expression up to a nesting depth over all operators, printed with minimal or redundant parentheses and random spacing",
  "tests check some dozens of expressions; pairs and triples of operators are not enumerated",
  ["askama_parser/src/expr.rs",G],[("expr_prec_layer! chain","askama_parser/src/expr.rs"),("visit_binop/visit_unary/visit_group","Generator")])

p("C12","All ways of rendering give the same text",
  "For every template and data, `render`, `to_string`/`Display`, `render_into`, `write_into`, the `DynTemplate` equivalents and repeated renderings all give the same text (or all fail), independent of what the destination already contains and of other templates in the program; reported extension and MIME type are the same through `Template` and `DynTemplate`.",
  ["programs","inputs"],"for every generated template and data, over all rendering entry points and repeated renderings",
  "tests use one entry point per template",
  ["askama/src/lib.rs",G],[("Template provided methods, DynTemplate","askama/src/lib.rs"),("impl_template/impl_display","Generator")])

p("C13","A failing writer or expression stops rendering with an error and a clean prefix",
  "If the destination fails at its k-th write, or evaluating an expression fails (`?` on an Err, or a Display or filter error), rendering returns an error and never panics, everything the destination received before is a prefix of the fault-free output, and nothing is written afterwards; an evaluation error carries the original error, and an io error from `write_into` is returned as io error. "
  "Without a fault rendering returns Ok with the complete text.",
  ["fault_sequences","crash_points","programs"],"for every template of the model, every write index k at which the destination fails (also mid-buffer), and every position of a failing expression",
  "tests never inject a writer failure; an ignored result anywhere in generated code is invisible while nothing fails",
  [G,"askama/src/lib.rs","askama/src/error.rs"],[("`?` on every generated write","Generator"),("write_into adapters","askama/src/lib.rs"),("visit_try","Generator")])

p("C14","A filter block outputs the filter chain applied to exactly its rendered body",
  "`{% filter f1|f2(..) %}body{% endfilter %}` outputs f2(f1(text)) where text is exactly what the body renders, with text before and after it unaffected and in order; this holds for empty bodies, bodies with control structures, loops, calls, includes and nested filter blocks. "
  "The chain's result is escaped as an expression's value would be (unless the last filter is `safe` or `escape`), on top of the escaping of expressions in the body.",
  ["programs","inputs"],"for every nesting of filter blocks with expressions, control structures, loops and calls in their bodies and every chain of a set of text filters",
  "tests have only bodies of literals and expressions",
  [G],[("write_filter_block","Generator")])

p("C15","Built-in text filters are the documented functions of the displayed text",
  "`lower`/`lowercase`, `upper`/`uppercase`, `capitalize`, `title`, `trim`, `truncate`, `center`, `indent`, `wordcount`, `linebreaks`, `linebreaksbr`, `paragraphbreaks`, `urlencode`, `urlencode_strict`, `join` and `fmt`/`format` give, for every input, the documented function of the text their input displays, never panic for any length argument, and compose; lengths of 10000 and more leave the text of `center` and `indent` as it is, and `paragraphbreaks` makes no empty paragraphs. "
  "The result does not depend on how the input's Display splits its text into writes.",
  ["inputs"],"for every text over an alphabet of letters, spaces, newlines, punctuation and multi-byte characters up to a length, every split into writes and every small argument",
  "tests check a few strings per filter; length arguments around multi-byte characters and chunked inputs are not covered",
  ["askama/src/filters/mod.rs"],[("filters::*","askama/src/filters/mod.rs")],observe=["result of calling a filter"])

p("C16","The json filter emits valid JSON that is safe inside HTML script and attributes",
  "The text produced by the `json`/`tojson` filter is valid pretty-printed JSON that denotes exactly the serialized value and contains none of the characters `<`, `>`, `&`, `'`, whatever strings (also as object keys) the value contains and however the serializer splits its output; with `|safe` it is emitted as is, without `safe` it is HTML-escaped once.",
  ["inputs"],"for every value built from null, booleans, numbers, arrays, objects and strings over an alphabet with all special characters",
  "the one test of it checks a few values",
  ["askama/src/filters/json.rs"],[("JsonWriter::write_all","askama/src/filters/json.rs")],observe=["result of the json filter"])

p("C17","The parser is total and bounded: it accepts, rejects with a position, or nothing",
  "For every text and every valid delimiter configuration, parsing returns a syntax tree or an error whose reported row, column and remaining text point into the source; it never panics or hangs, however deeply constructs nest. "
  "Constructs that nest moderately (twenty levels of tags or patterns, five levels of brackets in an expression) are accepted and nesting beyond a fixed limit (at most 128) is rejected with an error, where only constructs that enclose each other count (siblings, however many, never add up, and the limit is the same wherever in the file the construct stands). "
  "Every text that the grammar derives is accepted with its literals, names, comments and raw text as written, text whose tags are unknown, unclosed, mismatched or out of place is rejected, and what a construct parses to does not depend on the constructs that precede, follow or enclose it, or on which valid delimiters are configured.",
  ["inputs"],"for every string over an alphabet of tag fragments up to a length, every derivation of the grammar to a depth, and every number of repetitions of every construct in sequence or nested",
  "parser tests check specific snippets; level accounting across many siblings and truncated inputs is not enumerated",
  ["askama_parser/src/lib.rs","askama_parser/src/expr.rs","askama_parser/src/node.rs"],[("Level nest/leave","askama_parser/src/lib.rs"),("Ast::from_str error positions","askama_parser/src/lib.rs")],observe=["result of Ast::from_str"])

p("C18","Invalid templates are compile errors, never accepted and never crashes",
  "A template that breaks a rule of the language (unknown or unclosed tag, unreadable expression, mismatched end name, undefined macro or import scope, wrong or duplicated argument, super() or break outside its place, a block, include or macro call that leads back to itself, extends or import or macro definition not at top level, extends cycle, missing file, unknown fragment or escaper, filter misuse, bad derive attribute) is rejected at compile time with an error, in whatever position the rule is broken, and a template that breaks none is accepted; the derive macro never panics. "
  "Rules of use (names, arguments, super, filters, recursion) apply to what is reached when the template is put together: the bodies of macros that nobody calls and of blocks that are placed nowhere need only be readable.",
  ["programs"],"for every rule and every position (top level or inside each kind of body, file and definition) at which a template of the model can break it",
  "ui tests check one position per rule; the positions multiply with kinds of nesting",
  [G,"askama_parser/src/node.rs","askama_derive/src/input.rs","askama_derive/src/heritage.rs"],[("CompileError","askama_derive/src/lib.rs"),("find_used_templates","askama_derive/src/input.rs")],observe=["compiler diagnostics"])

p("C19","Custom delimiters only rename the delimiters",
  "Under any valid custom syntax, a template written with its delimiters means exactly what the same template means with the default delimiters, and text that looks like default delimiters is plain text; nested parsing (comments, raw blocks, blocks, includes of other files with that syntax) uses the custom delimiters too. "
  "A configuration whose delimiters are shorter than two characters, contain whitespace, or whose opening delimiters are prefixes of each other is rejected. (Closing delimiters that begin with a whitespace mark or with what continues an expression, like `%»`, and equal delimiters for the two ends of a comment are not meant.)",
  ["configurations","programs"],"for every assignment of delimiters from a pool to the six roles and every generated template, and every invalid delimiter configuration from the pool",
  "tests use two fixed syntaxes on one template",
  ["askama_parser/src/lib.rs","askama_parser/src/node.rs","askama_derive/src/config.rs"],[("Syntax","askama_parser/src/lib.rs"),("RawSyntax/Config::new","askama_derive/src/config.rs")])

p("C20","Escaper, MIME type and defaults follow attribute, extension and configuration",
  "The escaper is the one named by the `escape` attribute, else the one whose configured extensions contain the template's extension (ignoring a final j2/jinja/jinja2), user-configured escapers before built-in ones, else an error; extension and MIME type follow the `ext` attribute, else the path (the escaper follows the path even where `ext` is given with it). "
  "Default whitespace handling is the inline mark's, else the derive attribute's, else the configuration's, else preserve; template directories are searched in configured order and the configured default syntax applies where none is named.",
  ["configurations"],"for every combination of path, ext, escape and whitespace attribute values with configuration files that do or do not set each option",
  "tests fix one configuration per option; precedence is between combinations of options",
  ["askama_derive/src/config.rs","askama_derive/src/input.rs","askama_derive/src/generator.rs"],[("Config::new","askama_derive/src/config.rs"),("TemplateInput::new","askama_derive/src/input.rs"),("extension_to_mime_type","askama_derive/src/input.rs")])

p("C21","Web integrations answer with the rendered text and type, or a server error",
  "In the actix, axum, rocket and warp integrations, returning a template whose rendering succeeds gives a 200 response whose body is exactly the rendered text and whose content type is the template's MIME type; returning one whose rendering fails gives a 500 response and never a success status with partial or empty body.",
  ["programs","fault_sequences"],"for every integration, every kind of template extension, and rendering that succeeds or fails at any point",
  "integration tests check the success case of one or two templates; no test renders a failing template",
  ["askama_actix/src/lib.rs","askama_axum/src/lib.rs","askama_rocket/src/lib.rs","askama_warp/src/lib.rs"],[("into_response/respond","the integration crates")],observe=["HTTP status, headers and body of the response"])

p("C22","Editing a template file rebuilds what is made of it",
  "When a template file that a program is made of (named by `path`, or reached from there or from an inline `source` through extends, import and include, at any depth) is edited and the program is built again, the new program renders what is now on disk, as one built from scratch does; "
  "an edit that makes a file refer to another one also makes the program follow that other one from then on, and a file that is removed makes the next build fail instead of leaving the old program. (Changes of the configuration file, and new files that come before the ones found earlier in the search order, are not meant.)",
  ["histories"],"for every program of the model, and every sequence of edits, includes added by edits and removals of its files, with a build after each",
  "no test builds anything twice; the tests are compiled from files that stay the same",
  [G,"askama_derive/src/input.rs"],[("impl_template (tracked files)",G),("handle_include",G),("find_used_templates","askama_derive/src/input.rs")],observe=["rendered output after each incremental build"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
