#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that long texts stay readable).
import json
D = "structmeta-derive/src/"
S = "structmeta/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

SM = D+"struct_meta.rs"; H = S+"helpers.rs"; PA = D+"parse.rs"; TT = D+"to_tokens.rs"; TA = D+"to_tokens_attribute.rs"; SU = D+"syn_utils.rs"; AT = S+"arg_types.rs"

prop("C01", "Named arguments land in exactly the field they name, in any order",
 "For every struct with `#[derive(StructMeta)]` and every well-formed argument list, parsing succeeds and each named field holds exactly the value written under its name in its style, while fields that were not mentioned hold their documented default (`false`, `None`, unset flag, empty rest map). The result does not depend on the order in which the named arguments are written.",
 ["programs", "inputs"], "all struct definitions (any number, mix and order of bool/Flag/T/NameValue/NameArgs/Vec/Option fields, record or tuple) times all well-formed argument lists in any order",
 "The tests parse a handful of one- and two-field structs with one argument order each; index mix-ups between the per-style name tables, or between declaration order and sorted name order, only show with many fields, mixed styles and permuted arguments.",
 [SM, H], [("per-style name tables and match arms", SM+" Params::build"), ("name lookup", H+" try_parse_name / name_index_of / find"), ("constructor arguments by field index", SM+" build_ctor_arg")],
 ["syn::parse2::<T>, Attribute::parse_args::<T> and the fields of the value"])

prop("C02", "Faulty argument lists are always rejected, never partly accepted",
 "An argument list that omits a required argument, repeats a parameter, names an unknown parameter, uses a parameter in a style its type does not allow, supplies too many positional arguments, or leaves tokens unconsumed (in the list or inside a parenthesised argument) makes parsing return an error. No supplied argument is ever silently ignored, overwritten or merged.",
 ["programs", "inputs"], "all struct definitions times all argument lists with one or more faults at any position",
 "The compile-fail tests cover about a dozen faults, each on a one-field struct with the fault in one position; they do not cover repeats in different styles, faults after valid prefixes, faults in rest maps or in the last of many fields.",
 [SM, H], [("duplicate detection", SM+" NamedParam::build_arm_parse, RestParam::build_arm_parse"), ("missing argument errors", SM+" NamedParam::build_ctor_arg"), ("unknown / wrong style errors", H+" try_parse_name"), ("separator and leftover checks", SM+" Params::build")],
 ["Ok/Err of syn::parse2::<T>"])

prop("C03", "Positional arguments fill required, then optional, then variadic fields",
 "Positional arguments are assigned left to right to the required positional fields, then the optional ones, then the variadic one, each value intact and in order; optional fields not reached are `None` and an unreached variadic field is empty. Fewer positional arguments than required fields, more than the definition can hold, or a positional argument after a named one is an error.",
 ["programs", "inputs"], "all mixes of required/optional/variadic positional fields (record or tuple, interleaved with named fields) times all argument counts",
 "Tests use at most two positional fields and three positional arguments; positions beyond that and mixes with named fields are never sampled.",
 [SM], [("required prefix", SM+" Params::build, unnamed_required"), ("positional index dispatch", SM+" arms_unnamed, unnamed_index"), ("positional after named", SM+" named_used")],
 ["fields of the parsed value; Ok/Err"])

prop("C04", "Name-like arguments are classified by the styles the struct declares",
 "An argument that looks like `name`, `name = ...` or `name(...)` is read as a named argument whenever the struct declares at least one parameter of that style (even if the name is unknown, which is then an error), and otherwise as a positional value if the struct has optional or variadic positional fields. With `name_filter = \"snake_case\"` names containing anything but lowercase ASCII letters, digits and `_` are never parameter names; and look-alikes such as `a == b`, `a::b`, `a.b` or `a[0]` are values.",
 ["programs", "inputs"], "all combinations of declared styles, positional fields and name filters times all argument shapes",
 "Eight tests sample eight of the style combinations, always with the single name `x` and one argument.",
 [H, SM], [("style dispatch on the token after the name", H+" try_parse_name, peek_eq_op"), ("which styles are declared", SM+" NamedParamType::is_flag/is_name_value/is_name_args"), ("snake_case filter", H+" is_snake_case")],
 ["fields of the parsed value; Ok/Err"])

prop("C05", "The rest map collects exactly the named arguments no field claims",
 "A `HashMap<String, _>` field receives every named argument of its style whose name is not declared by another field, keyed by the written name and with the written value, and nothing else; declared names always go to their own field. A repeated undeclared name is an error and with no such arguments the map is empty.",
 ["programs", "inputs"], "all definitions with a rest field of any value type next to any other fields, times all argument lists",
 "Tests use one map type with up to two entries and no other fields.",
 [SM, H], [("rest arms", SM+" RestParam::build_arm_parse"), ("rest lookup", H+" name_index_of")],
 ["contents of the HashMap field"])

prop("C06", "Absent, bare, valued and empty forms of a parameter stay distinguishable",
 "For every documented field type the parsed value distinguishes exactly the forms its type can express: absent (`None`/`false`/unset), bare name (`Some` wrapper holding `None`), `name = value`, `name(value)`, `name()` (an empty list, not an absent one) and `name(v1, v2, ...)` with every item kept in order. Forms that the type does not document are errors.",
 ["programs", "inputs"], "all documented field types (with and without Option and in rest maps) times all written forms",
 "Each field type is sampled by one test with one or two forms; the cross product of types with forms they must reject is not covered.",
 [SM, AT], [("style from type", SM+" NamedParamType::from_type"), ("value builders per style", SM+" NamedParamType::build_parse_expr")],
 ["fields of the parsed value; Ok/Err"])

prop("C07", "Argument separators and token layout never change the meaning",
 "Arguments are separated by single commas with at most one optional trailing comma; a missing, doubled, leading or lone comma is an error. Spaces, newlines and comments (or their absence, as in `x=-1`), parsing through an attribute or directly, and invisible groups around a value as left by macro expansion do not change the result.",
 ["programs", "inputs"], "all struct definitions, argument lists and layouts of the same tokens",
 "The tests write every list in one layout with quote-like macros, where operators are never glued and there is no trailing comma.",
 [SM, H], [("separator loop", SM+" Params::build, is_next"), ("`=` recognition", H+" peek_eq_op"), ("argument lists in parentheses", SM+" build_parse_expr_name_args")],
 ["fields of the parsed value; Ok/Err, compared between layouts"])

prop("C08", "Any identifier or keyword works as a parameter name",
 "The name of a parameter is the field name without `r#`, or the string given in `#[struct_meta(name = \"...\")]`, and it matches exactly that spelling: case-sensitive, keywords and `self`-like words included (`r#x` is another name than `x`), independent of the names of other fields and of how many there are. The Rust field name has no influence when an explicit name is given.",
 ["programs", "inputs"], "all sets of distinct identifiers/keywords as names, raw or renamed, and all argument names",
 "Tests use the names abc, xxx, if and self, one at a time.",
 [SM, H], [("name resolution", SM+" Param::from_field"), ("keyword-tolerant ident parsing", H+" try_parse_name (parse_any)"), ("exact name comparison", H+" find")],
 ["fields of the parsed value; Ok/Err"])

prop("C09", "Parsing arbitrary tokens returns Ok or Err; it never panics",
 "Parsing any token sequence whatsoever with a derived parser (StructMeta or Parse) returns normally, gives the same answer every time, and for StructMeta returns Ok only if the documented grammar of the struct covers the whole sequence. It never panics.",
 ["programs", "inputs"], "all definitions times all token sequences, including malformed and adversarial ones",
 "Tests feed only a few well-formed lists and the compile-fail cases.",
 [SM, H, PA], [("main argument loop", SM+" Params::build"), ("name detection", H+" try_parse_name"), ("name suggestion", H+" distance/find_similar_name"), ("derived Parse", PA)],
 ["return or panic of the parser; Ok/Err"])

prop("C10", "Spans recorded for names point at the written name",
 "`Flag::span`, `NameValue::name_span` and `NameArgs::name_span` of every parsed field (also inside `Option`, rest maps and nested lists) are the source location of the name token of that very argument, and a flag that was not written has no span.",
 ["programs", "inputs"], "all definitions with span-carrying types times all argument lists and positions",
 "Equality of these types ignores the span, so no test looks at one.",
 [SM, AT, H], [("span returned with the name", H+" try_parse_name"), ("span stored in the value", SM+" NamedParamType::build_parse_expr")],
 ["Span::start()/end() of the recorded spans with span-locations"])

prop("C11", "Rejections name the offending parameter and point at the culprit",
 "When a list has exactly one fault, the error message mentions the parameter concerned (the missing, repeated, unknown or mis-styled name; for a mis-styled one also the expected form) and its location is the culprit: the name token of the repeated, unknown or mis-styled argument, or the first token of the superfluous or misplaced positional argument. A missing argument is reported with its expected form.",
 ["programs", "inputs"], "all definitions times all lists with a single fault at any position",
 "The compile-fail tests pin the text for about a dozen cases with one field and one argument, where almost any span or name looks right.",
 [SM, H], [("error construction", H+" try_parse_name, msg"), ("duplicate / missing messages", SM+" NamedParam::build_arm_parse, build_ctor_arg")],
 ["syn::Error message and span"])

prop("C12", "An unknown name close to exactly one parameter gets that suggestion",
 "If an unknown argument name differs from exactly one declared parameter name by one inserted, deleted or replaced character or by one swap of neighbours, the error suggests that parameter; it never suggests a name that is not declared or is further away.",
 ["programs", "inputs"], "all sets of declared names (any length, any style) and all misspellings",
 "One test checks one misspelling; the unit test checks six pairs of words of length one and two.",
 [H], [("edit distance", H+" distance"), ("best candidate", H+" find_similar_name")],
 ["syn::Error message"])

prop("C13", "Derived ToTokens writes all fields in order, enclosed exactly as declared",
 "For every struct or enum with `#[derive(ToTokens)]` and every value, the output is the concatenation of the fields' tokens in declaration order, each exactly once, where a field with an opening `#[to_tokens]` symbol encloses exactly the fields up to its closing symbol (or to the end), groups nested as declared. Tokens and delimiters keep the spans of the value.",
 ["programs", "inputs"], "all definitions with any nesting of delimiters, all variants and all field values",
 "Tests cover a dozen shapes of up to five fields with at most two groups; spans are never compared.",
 [TT, TA], [("scope stack", TT+" code_from_fields"), ("group emission", TT+" Scope::into_code, surround"), ("field binding", TT+" to_pattern / to_var_ident")],
 ["token trees and spans produced by ToTokens::to_tokens"])

prop("C14", "Derived Parse accepts exactly its fields in order and consumes no more",
 "For every struct with `#[derive(Parse)]`, parsing accepts a token sequence exactly when it starts with the declared fields in order with groups nested as declared, returns the value of each field, and leaves all following tokens unread. A wrong, missing or wrongly delimited token, or a token left over inside a group, is an error.",
 ["programs", "inputs"], "all struct definitions with any delimiter nesting times all token sequences",
 "Tests parse one accepted input per shape and compare only re-printed tokens; rejection and consumption are barely sampled.",
 [PA, TA], [("field loop and scope stack", PA+" code_from_fields"), ("opening groups", PA+" to_parse_bracket"), ("closing groups", PA+" scopes.pop")],
 ["value, Ok/Err and unread rest of the stream"])

prop("C15", "Parse and ToTokens derived for the same type are inverse",
 "For a type deriving both, printing any value and parsing the output gives back an equal value, and parsing any accepted input and printing it gives back the same tokens with the same spans, groups and delimiter kinds.",
 ["programs", "inputs"], "all definitions deriving both, all values and accepted inputs",
 "The tests check print(parse(x)) on about thirty fixed inputs, ignoring spans, and never parse(print(v)).",
 [PA, TT, TA], [("symmetric scope handling", PA+" / "+TT+" code_from_fields")],
 ["round trips in both directions"])

prop("C16", "Derived Parse on enums selects the documented variant",
 "Variants are tried in declaration order: a variant whose `peek` fields all match the next tokens is chosen and committed to, even if it then fails; a variant without `peek` is tried speculatively and skipped, without consuming anything, if it does not parse; if no variant applies the result is an error. The value holds the chosen variant's fields and the stream is left right after them.",
 ["programs", "inputs"], "all enums mixing peeked, speculative, unit and nested variants times all token sequences",
 "Tests have at most three variants; only one checks that peek does not fall through and none checks what is left in the stream.",
 [PA], [("variant dispatch", PA+" code_from_enum"), ("peek predicates", PA+" to_predicate"), ("speculative parse", PA+" fork/advance_to")],
 ["chosen variant, fields, unread rest, Ok/Err"])

prop("C17", "`any` and `terminated` parse exactly the extended forms and only there",
 "A field marked `#[parse(any)]` accepts keywords as identifiers, one marked `#[parse(terminated)]` accepts a list separated by its punctuation with optional trailing separator up to the end of its group, and both together a list of identifiers including keywords; unmarked fields keep the ordinary grammar. Items, separators and their order are preserved, and peeking such a field agrees with parsing it.",
 ["programs", "inputs"], "all positions, delimiter scopes and combinations of these attributes times all token sequences",
 "Six tests with a single field each.",
 [PA], [("parse expression selection", PA+" code_from_fields is_any/is_terminated"), ("peek_any", PA+" PeekItem")],
 ["value, Ok/Err, unread rest"])

prop("C18", "MacroDelimiter fields accept and reproduce any of the three delimiters",
 "A `MacroDelimiter` field accepts `()`, `[]` or `{}` whichever symbol its attribute uses, records which one was written and prints the same one again around exactly the enclosed fields; typed delimiter fields accept only their own kind. Anything but a group at that place is an error.",
 ["programs", "inputs"], "all definitions with MacroDelimiter fields at any nesting, all three delimiters at each of them",
 "Two test shapes with one group each.",
 [PA, TT, H, SU], [("delimiter detection", H+" parse_macro_delimiter"), ("delimiter printing", H+" surround_macro_delimiter"), ("type test", SU+" is_macro_delimiter")],
 ["recorded delimiter, printed tokens, Ok/Err"])

prop("C19", "Every well-formed definition compiles to a working implementation",
 "Deriving StructMeta, Parse or ToTokens on any definition that follows the documentation compiles, whatever the number, names (also raw and names the generated code might use itself) and visibility of fields and variants, for generic types with bounds and where-clauses, without requiring names to be imported at the place of use, without requiring anything of the user's crate but structmeta itself and the crates the definition names (under whatever names, in whatever edition, with no feature of syn beyond its default ones), and also if the definition is written by a `macro_rules` macro from its arguments. The resulting implementation behaves like that of any other definition.",
 ["programs"], "all well-formed definitions: names, generics, where-clauses, attributes, paths, surrounding scopes",
 "Tests define a few dozen plain types without generics, with unremarkable names, in modules that import everything.",
 [SM, PA, TT, SU], [("impl header with generics", SU+" impl_trait"), ("temporary names", SM+" ParamInfo::new, "+PA+" to_var_ident"), ("absolute paths in generated code", SM+", "+PA+", "+TT)],
 ["rustc accepts the definition; behaviour of the result"])

prop("C20", "Ill-formed definitions are rejected with a located error, not a panic",
 "A definition that breaks the documented rules (unsupported item kind, duplicate parameter names or rest maps, positional fields in the wrong order or of a named-only type, unknown or malformed helper attributes, unbalanced or mismatched delimiters, invalid use of `peek`) is refused at compile time with an error that points into that definition; if the definition's own text shows the fault, the macro itself reports it at the offending field or attribute, and where only the types show it (a type that cannot be parsed or printed), the compiler's message for `StructMeta` and `ToTokens` points into that field. The macro never panics on it and never silently accepts it.",
 ["programs"], "all definitions with one rule broken at any place",
 "Four compile-fail tests cover definition errors.",
 [SM, PA, TT, TA], [("definition checks", SM+" Params::from_fields, Param::from_field"), ("attribute parsers", SM+" ArgForStruct/ArgForField, "+PA+" ParseAttribute, "+TA), ("delimiter checks", PA+"/"+TT+" code_from_fields"), ("peek checks", PA+" code_from_fields, to_predicate")],
 ["rustc diagnostics per definition"])

prop("C21", "Special types are recognised by any standard path and nothing else is",
 "`Option`, `Vec`, `HashMap`, `String`, `bool`, `Flag`, `NameValue`, `NameArgs` and `MacroDelimiter` are recognised when written plainly or through their standard module paths, with or without a leading `::`, also when passed through a `macro_rules` macro, and all spellings behave identically. A user type of the same name in another module is treated as an ordinary value type.",
 ["programs", "inputs"], "all spellings of all special types in all roles, and all look-alikes",
 "Unit tests check four spellings of Option at token level; no look-alike is tested.",
 [SU, SM], [("path matching", SU+" is_match_ns, get_arguments_of"), ("namespaces", SM+" get_option_element, get_vec_element, get_hash_map_element, is_bool, is_flag, is_string")],
 ["parsing behaviour of the definition"])

prop("C22", "`dump` reports exactly the code the derive would generate",
 "`#[struct_meta(dump)]`, `#[parse(dump)]` and `#[to_tokens(dump)]` make compilation fail with a message containing the complete generated implementation, and that code, pasted in place of the derive, compiles and behaves exactly like the derive. Definitions without `dump` are unaffected and other helper arguments may be combined with it.",
 ["programs", "inputs"], "all definitions with dump, alone or combined with other struct-level arguments",
 "No test uses dump.",
 [SU, SM, PA, TT, TA], [("dump", SU+" impl_trait_result")],
 ["rustc diagnostics; behaviour of the dumped code"])

prop("C23", "Flag, NameValue and NameArgs behave as plain values",
 "Equality of `Flag`, `NameValue` and `NameArgs` ignores spans and compares only set/unset or the carried value; `Flag::value`, `From<bool>`, `NONE`, `Default` and `Clone` agree with each other. `|` and `|=` on flags are logical or, keep the span of the left operand if it is set and otherwise that of the right, and agree with each other.",
 ["inputs", "histories"], "all values, spans and sequences of operations",
 "No test exercises these operations apart from From<bool> and equality in assertions.",
 [AT], [("operators", AT+" impl BitOr/BitOrAssign/PartialEq/From")],
 ["results of the public operations"])

prop("C24", "Nested derived types compose: inner lists follow their own definition",
 "A type with `#[derive(StructMeta)]` used as the argument type of another (`name(args)`, optional or in a rest map) parses the parenthesised list exactly as it would parse the same list at top level, values and errors alike, and never affects the arguments around it. The same holds for derived Parse types used as field or argument types.",
 ["programs", "inputs"], "all pairs of outer and inner definitions times all nested argument lists",
 "One compile-fail test nests a two-field tuple struct.",
 [SM, PA], [("parenthesised argument parsing", SM+" build_parse_expr_name_args")],
 ["fields of the nested value; Ok/Err; metamorphic comparison with top-level parsing"])

prop("C25", "A value that does not parse is reported by its own parser's error",
 "If an argument value, positional argument, list or map element, or a field, separator, token or delimiter of a Parse type does not parse, the derived parser reports exactly the error that part's own `syn::parse::Parse` gives at that place: same messages, same spans, same number of combined errors; nothing is replaced, appended or moved. An argument followed by something other than `,` and tokens left over inside a parenthesised list or group are reported at the first token that does not belong there. (The error for an enum none of whose variants fits is not specified.)",
 ["programs", "inputs"], "all definitions times all inputs with a part that does not parse",
 "Compile-fail tests pin a few messages for literals and identifiers.",
 [SM, PA], [("values", SM+" build_parse_expr"), ("fields", PA+" code_from_fields"), ("delimiters", "structmeta/src/helpers.rs surround_token")],
 ["messages and spans of syn::Error against those of the field type's own parser in the same place"])

prop("C26", "The implementations written depend on the definition only",
 "What the derives of structmeta write for a definition (the implementations, or the error they report for an ill-formed one) is a function of the definition alone: the same definition compiled again, in another place, after other definitions or in another process gives the same implementations in the same order with the same names, and the same error.",
 ["programs", "histories"], "all definitions times all orders and processes in which they are expanded",
 "Every test expands each definition once, in one order; nothing compares two expansions.",
 [SM, PA, TT, SU], [("generated names", SM+" ParamInfo::new, to_named_ps, "+PA+" to_var_ident"), ("order of generated items", SM+" Params::build, "+SU+" impl_trait, SharedPredicates"), ("dump", SU+" dump output")],
 ["the code printed by the documented `dump` argument; the macro's own errors"])

prop("C27", "Inside a real procedural macro the derived parsers behave as outside",
 "A derived parser or printer used where it is meant to be used - in a function-like macro, an attribute macro or on a derive helper attribute, while rustc expands it, with tokens of the compiler, also tokens that come from the fragments of a `macro_rules` macro - gives for every input the same value, the same error messages, the same name spans, culprits, rest and printed tokens as on the same text outside of the compiler (in unit tests or build scripts), and never panics there.",
 ["programs", "inputs"], "all definitions times all inputs times all ways in which a procedural macro gets its input",
 "The tests run outside of the compiler on the fallback implementation of proc-macro2; a few ignored compile-fail tests pin messages.",
 [H, SM, PA, TT], [("names, errors, speculative parsing", H), ("parsers", SM+" Params::build, "+PA), ("printing", H+" surround_token")],
 ["values, spans and errors observed in a procedural macro run by rustc, for generated inputs"])

prop("C28", "Every part of the input is read once, in order, by the parser it belongs to",
 "A derived parser calls the `syn::parse::Parse` implementation of each argument value, positional argument, list or map element exactly once, at its place and in the order of the text, and that of each field, token and separator of a Parse type once per attempt: a struct is one attempt, an enum attempts the variants without `peek` in order until one parses, or only the variant its `peek` fields select. Nothing is parsed ahead, again or by a type it does not belong to, so that parsers with side effects work and the time does not multiply with nesting.",
 ["programs", "inputs"], "all definitions (nested and recursive ones too) times all inputs",
 "The tests only look at results, which a second parse of the same tokens does not change.",
 [SM, PA], [("values", SM+" build_parse_expr, build_arm_parse"), ("attempts", "structmeta/src/helpers.rs try_parse"), ("fields", PA+" code_from_fields")],
 ["calls of Parse::parse of the field types, with the place of the stream"])

prop("C29", "The derives add no compiler warnings to the user's crate",
 "Deriving StructMeta, Parse or ToTokens on a well-formed definition makes rustc report no warning that it does not report for the same definition without the derive: no lint that is on by default, and none of `unused`, `nonstandard_style`, `future_incompatible`, `rust_2018_idioms`, `let_underscore`, fires on the generated code, whatever the names, attributes (`#[deprecated]`, `#[allow(..)]`), generics and visibility in the definition. So crates that deny warnings can use the derives.",
 ["programs"], "all well-formed definitions",
 "No test looks at warnings.",
 [SU, SM, PA, TT], [("implementation header", SU+" impl_trait"), ("names of locals", PA+" to_var_ident, "+TT+" to_var_ident, "+SM+" ParamInfo"), ("code with the span of a field", SM+" build_let_parse, build_parse_expr, "+PA+" code_from_fields, "+TT+" code_from_fields")],
 ["rustc warnings per definition"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
