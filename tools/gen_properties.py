#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
V="core/src/version/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
HOOK="cfg(ronda_verif) re-export of the single-spec type and of the matching trait, which the crate keeps private"
p("V01","Parsing any text ends with a version or a parse error, never a crash",
 "Parsing any text as a version terminates and returns either a version or a parse error; it never panics, aborts or hangs. "
 "A text with two or more '!' and a text with two or more '+' after its epoch are rejected, as is an epoch that is not a number from 0 to 32767; every other text without a sign in its epoch is accepted. "
 "All string-parsing entry points (parse with the conda parser, FromStr, the conda parser itself) agree on acceptance.",
 ["inputs"],"every text: any characters, any length, any placement of the separators . _ - + ! and of digits, letters and non-ASCII characters",
 "The suite parses about 20 hand-picked well-formed versions; the malformed list is commented out, so no malformed, non-ASCII or oversized text is ever parsed.",
 [V+"parsers/conda.rs",V+"version.rs",V+"errors.rs"],[("conda_parser",V+"parsers/conda.rs"),("Version::parse / FromStr",V+"version.rs")],
 ["Version::parse","str::parse::<Version>","conda_parser"])
p("V02","A version keeps its text and splits into the documented parts",
 "A parsed version reports exactly the text it was parsed from (as string and when displayed), and reparsing that text gives the same parts. "
 "Its parts are, in order: the epoch before '!' if there is one; then, with '.', '_' and '-' all acting as separators and empty pieces skipped, every maximal run of ASCII digits as the number it denotes and every maximal run of other characters as text; then the text after '+' as one local part if it is non-empty; the empty text has the single part Empty. "
 "The part count, the part list and lookup by index agree, and looking up an index at or past the count is an error.",
 ["inputs"],"every text without non-ASCII digits that parses as a version",
 "The suite checks only the number of parts for 13 texts; it never checks what the parts are, nor underscores, repeated separators, epochs or local parts.",
 [V+"parsers/conda.rs",V+"version.rs",V+"version_part.rs"],[("conda_parser",V+"parsers/conda.rs"),("Version::{as_str,part,parts,part_count}, Display",V+"version.rs")],
 ["Version::as_str","Version::parts","Version::part","Version::part_count","Display","Debug"])
p("V03","Version comparison is a total preorder and all its entry points agree",
 "For any versions, comparison gives exactly one of less, equal, greater; every version equals itself, swapping the two sides swaps the answer, and the relation is transitive (including transitivity of equality), so sorting by it is well defined. "
 "Three-way comparison, comparison against a text, the language operators (==, !=, <, <=, >, >=) and partial ordering all give the same answer for the same pair. "
 "Single version parts, and versions whose parts come from a caller's own parser, obey the same laws.",
 ["inputs"],"every pair and triple of versions, of any length and mixture of numbers, text, epochs and local parts",
 "The suite compares about 60 fixed pairs; no test looks at triples, and a relation can satisfy every tested pair and still be intransitive.",
 [V+"version.rs",V+"version_part.rs",V+"custom_parts/pep440.rs"],[("Version::compare_iter",V+"version.rs"),("PartialOrd for VersionPart",V+"version_part.rs"),("compare_pep440_str",V+"custom_parts/pep440.rs")],
 ["Version::compare_version","Version::compare_str","PartialOrd/PartialEq for Version"])
p("V04","Version order follows the documented precedence rules",
 "Versions compare part by part from the left, a missing part counting as 0 (1 = 1.0 < 1.0.1), numbers by numeric value whatever their size and leading zeros, and a version with an explicit epoch part ranks above any without one, higher epochs first. "
 "Text parts ignore case and rank: containing 'dev' (all equal) < other text alphabetically < 0 or absent < containing 'post' (all equal, 'post' winning over 'dev') < any positive number; the empty version ranks below everything. "
 "The local part after '+' is ignored unless all else is equal; then no local part ranks lowest and local parts compare bytewise.",
 ["inputs"],"every pair of versions",
 "Unit tests fix around 60 pairs, mostly short and with one difference; interactions (zero padding followed by more parts, post against a number, local part against further parts, long versions) are not sampled.",
 [V+"version.rs",V+"version_part.rs",V+"custom_parts/pep440.rs",V+"parsers/conda.rs"],[("Version::compare_version",V+"version.rs"),("VersionPart ordering, get_empty",V+"version_part.rs"),("compare_pep440_str",V+"custom_parts/pep440.rs")],
 ["Version::compare_version"])
p("V05","Operator tests on two versions agree with their order",
 "For any versions a and b, testing 'a op b' for ==, !=, <, <=, >, >= is true exactly when the three-way comparison of a with b says so, 'a startswith b' is true exactly when the parts of a begin with parts equal to those of b, and 'a ~= b' (compatible) is true exactly when a is not older than b and the parts of a begin with parts equal to all those of b but the last. "
 "Testing the inverse operator always gives the opposite answer, testing the flipped one of those six with the sides swapped gives the same answer, and testing against a text equals testing against that text parsed. "
 "No operator test crashes.",
 ["inputs"],"every pair of versions and every operator",
 "compare_to_str / compare_to_version are tested on 24 pairs of which 17 fail on the pinned commit; nothing covers all operators on one pair.",
 [V+"version.rs",V+"comp_op.rs"],[("Version::compare_to_version, startswith",V+"version.rs"),("CompOp::{invert,flip}",V+"comp_op.rs")],
 ["Version::compare_to_version","Version::compare_to_str","Version::startswith"])
p("O01","Operator signs, names and transformations are coherent",
 "Each of the ten operators has a distinct sign and a distinct name, looking up its sign or its name (with any surrounding whitespace; names in any letter case) gives it back, and every other text is rejected with an error. "
 "Inverting negates (applying it twice gives the operator back), the opposite mirrors the direction of < <= > >= and negates the others, flipping mirrors < <= > >= and leaves the others alone; consuming and borrowing forms agree. "
 "Conversion from and to an ordering round-trips for <, ==, > and is undefined for the others, and the numeric factor is the direction (-1, 0 or 1).",
 ["inputs"],"every text given to a lookup and every operator",
 "Tests look up the ten exact spellings plus one padded spelling and one bad text; near-miss texts (extra, missing or changed characters, inner whitespace, other case mixes) are not covered.",
 [V+"comp_op.rs"],[("CompOp::{from_sign,from_name,sign,name,invert,opposite,flip,ord,from_ord,factor}",V+"comp_op.rs")],
 ["CompOp public API"])
p("P01","The Python class compares and prints exactly as the Rust version does",
 "For any two version texts, the Python objects built from them compare under ==, !=, <, <=, > and >= exactly as the versions order, startswith gives the versions' prefix answer, and repr gives the text back. "
 "Building an object from a text that is not a version raises a Python exception; it never aborts the interpreter.",
 ["inputs"],"every pair of texts and every rich comparison",
 "The Python member has no tests at all, and its extension module cannot be loaded by the installed interpreter.",
 ["python/src/python_interface.rs",V+"version.rs"],[("py_cmp_to_ronda_cmp, RustyVersion","python/src/python_interface.rs")],
 ["RustyVersion.__new__/__richcmp__/__repr__/startswith"])
p("S01","A relational spec accepts exactly the versions it describes",
 "For every version text V (one or more non-space characters, not starting with an operator or ^, without * @ $ ( ) | ,) the specs ==V, !=V, <V, <=V, >V and >=V accept a version X exactly when X == V, X != V, X < V, X <= V, X > V or X >= V in the version order, and the bare spec V accepts exactly the versions equal to V. "
 "Appending '.*' to V after ==, <, <=, > or >= changes nothing. "
 "Matching a text and matching the parsed version agree.",
 ["inputs"],"every operator, every V and every candidate X",
 "The suite evaluates about 45 (spec, version) pairs, nearly all with X close to 1.7; a wrong boundary, side or padding for one operator survives it.",
 [V+"matching.rs",V+"spec_trees.rs",V+"version.rs"],[("create_match_enum_from_operator_str, MatchOperator",V+"matching.rs"),("VersionSpec",V+"spec_trees.rs")],
 ["VersionSpecOrConstraintTree / VersionSpec test_match, test_match_version"],hook=HOOK)
p("S02","A prefix spec accepts exactly the versions that begin with it",
 "For every version text V (as for S01, and not ending in '.') the specs V.*, V*, =V and =V.* accept a version X exactly when the first parts of X equal the parts of V one by one (as parts compare, so case of text is ignored; X may be longer but not shorter), and !=V.* accepts exactly the others. "
 "~=V accepts X exactly when X is not older than V and the first parts of X equal all parts of V but the last.",
 ["inputs"],"every V and every candidate X",
 "Tests cover about 20 prefix pairs on 1.x / 3.3 versions; multi-digit boundaries (1.1* against 1.10), text parts, epochs and local parts are hardly sampled.",
 [V+"matching.rs",V+"version.rs"],[("get_matcher, MatchOperator",V+"matching.rs"),("Version::startswith",V+"version.rs")],
 ["VersionSpec test_match, test_match_version"],hook=HOOK)
p("S03","Wildcard, regex, any and literal specs match the version text as written",
 "The spec * accepts every version, and a spec of letters, digits, '.', '_', '-', '+', '!' with a * somewhere before another character accepts exactly the versions whose whole text matches it with every * standing for any sequence of characters and every '.' and other character for itself. "
 "A spec ^R$ (R a regular expression without a top-level |) accepts exactly the versions whose text matches R from end to end, and a spec containing @ (no *, not starting with an operator or ^, not ending in $) accepts exactly the versions with that same text; all for texts without line breaks. "
 "Matching never crashes.",
 ["inputs"],"every such spec and every candidate",
 "All regex and inner-wildcard tests fail on the pinned commit (matching panics), so nothing guards them; @ is never tested.",
 [V+"matching.rs"],[("get_matcher, MatchRegex, MatchExact, MatchAlways",V+"matching.rs")],["VersionSpec test_match"],hook=HOOK)
p("S04","Parsing any text as a spec ends with a spec or an error, never a crash",
 "Parsing any text as a version spec, single or compound, terminates and returns a spec or an error; it never panics, aborts or hangs, and matching any version against an accepted spec does not either. "
 "Rejected are: the empty text, a single spec that starts with ^ or ends with $ but not both, ^...$ that is not a valid regular expression, an unknown operator, an operator followed by nothing, by whitespace or by another operator character, ~= with a trailing .*, and a relational, prefix or bare spec whose version is not a version.",
 ["inputs"],"every text, including malformed and non-ASCII ones",
 "Tests try eight malformed specs, several of which fail or are never asserted on the pinned commit.",
 [V+"matching.rs",V+"spec_trees.rs"],[("get_matcher",V+"matching.rs"),("TryFrom<&str> for VersionSpec / VersionSpecOrConstraintTree, treeify",V+"spec_trees.rs")],
 ["VersionSpecOrConstraintTree::try_from","VersionSpec::try_from","treeify"],hook=HOOK)
p("S05","A spec reports itself exact only when it pins one version",
 "A single spec is reported exact exactly when it is a bare version, '==' followed by a version, or a literal spec with @; an exact spec gives its own text as exact value, any other gives none, and a compound spec is never exact. "
 "Two versions accepted by the same exact spec are always equal. "
 "A spec reports exactly the text it was built from.",
 ["inputs"],"every accepted spec and every pair of versions it accepts",
 "Exactness is tested on seven specs.",
 [V+"matching.rs",V+"spec_trees.rs"],[("get_matcher's exact flag",V+"matching.rs"),("Spec::{is_exact,exact_value,raw_value,get_spec}",V+"spec_trees.rs")],
 ["Spec::is_exact","Spec::exact_value","Spec::get_spec"],hook=HOOK)
p("S06","The specs over one version agree with each other and with the order",
 "For every version text V (as for S01) and every version X exactly one of <V, ==V and >V accepts X; <=V accepts what <V or ==V accepts, >=V what >V or ==V accepts, !=V what ==V does not, the bare V what ==V does, !=V.* what V.* does not (V not ending in '.'), and ~=V nothing that >=V does not. "
 "With one version that <V or <=V accepts, every version not newer than it is accepted, likewise every one not older for >V and >=V, and versions equal to each other are accepted alike by all of these five and ==V. "
 "The compound spec <V|V|>V accepts every version, and >=V,<=V accepts what ==V does.",
 ["inputs"],"every V and every set of candidate versions",
 "Each test fixes one spec and one version; that two specs, or the answers for two versions, fit together is never tested.",
 [V+"matching.rs",V+"spec_trees.rs",V+"version.rs"],[("get_matcher, MatchOperator",V+"matching.rs"),("Version::compare_to_version",V+"version.rs")],
 ["VersionSpecOrConstraintTree test_match_version","Version comparison"],hook=HOOK)
p("C01","A clone of any value answers everything as its original does",
 "A clone of a version, version part, operator, connective, version spec or spec tree equals its original: it has the same text, parts, debug form, exactness, structure and written text, takes the same place in the order and accepts the same versions. "
 "It stays so after its original, or a clone of it, is changed or dropped.",
 ["inputs","histories"],"every value of these types",
 "No test clones anything.",
 [V+"version.rs",V+"version_part.rs",V+"matching.rs",V+"spec_trees.rs",V+"comp_op.rs"],[("derive(Clone) on Version, VersionPart, MatchEnum, VersionSpec, ConstraintTree",V)],
 ["Clone impls of the public types"],hook=HOOK)
p("T01","A compound spec parses to the tree its grammar prescribes",
 "A well-formed compound spec (specs joined by ',' for and, '|' for or, with parentheses; ',' binding tighter; spaces around tokens and redundant parentheses ignored; a regular expression, from ^ to the first $, being one token) parses successfully. "
 "The resulting tree has the same truth value as the expression under every assignment of truth values to its specs, keeps the specs in written order, and directly nested groups of the same connective are merged into one.",
 ["inputs"],"every well-formed expression: any number of specs, any nesting and redundant grouping",
 "Seven expressions are tested, with an equality that ignores both the connective and the number of parts.",
 [V+"spec_trees.rs"],[("_treeify, _apply_ops",V+"spec_trees.rs")],["treeify","ConstraintTree.combinator","ConstraintTree.parts"],
 state=[("output","operand stack, or the single reduced tree",V+"spec_trees.rs"),("stack","pending operators and open parentheses",V+"spec_trees.rs")])
p("T02","A malformed compound spec is rejected, never reinterpreted",
 "A compound spec with unbalanced parentheses, a missing operand (leading, trailing or doubled ',' or '|', empty parentheses, empty text), two operands without a connective (such as (1)(2) or 1(2)), or an invalid single spec inside is rejected with an error. "
 "It is never accepted with some other meaning and never crashes the parser.",
 ["inputs"],"every token sequence that is not a well-formed expression",
 "Three malformed expressions are tested, against the single-spec parser rather than the tree parser.",
 [V+"spec_trees.rs"],[("_treeify, _apply_ops",V+"spec_trees.rs")],["treeify","VersionSpecOrConstraintTree::try_from"])
p("T03","Turning a spec tree into text and back loses nothing",
 "For every tree obtained by parsing a compound spec, writing it as text succeeds and parsing that text gives an equal tree whose text is the same. "
 "For every tree built from non-empty and/or groups of two or more members, the written text parses to a tree with the same truth value under every assignment; a tree containing an empty group, or a single-member group around another group, is refused with an error and never a crash.",
 ["inputs"],"every parsed tree and every constructible tree",
 "Five trees are written out in tests; none is read back.",
 [V+"spec_trees.rs"],[("untreeify, ConstraintTree::combine",V+"spec_trees.rs")],["untreeify","treeify"])
p("T04","A compound spec accepts a version exactly when its boolean meaning says so",
 "For every tree, an and-group accepts a version exactly when all its members do, an or-group exactly when at least one does, and a parsed expression consisting of one spec accepts exactly what that spec accepts. "
 "Parsing a compound text (one holding any of ( ) | ,) through the general spec entry point gives a spec with that meaning, and so does building a group from a connective and a list of texts; an unknown connective, an empty list or an invalid member is an error.",
 ["inputs"],"every expression and every candidate version",
 "All compound-match tests fail on the pinned commit except one that passes by accident, so conjunction and disjunction are not guarded.",
 [V+"spec_trees.rs"],[("Spec for ConstraintTree, TryFrom impls",V+"spec_trees.rs")],["test_match","test_match_version","VersionSpecOrConstraintTree::try_from","ConstraintTree::try_from"],hook=HOOK)
p("T05","Spec trees compare equal exactly when they are the same tree",
 "Two spec trees are equal exactly when they have the same connective, the same number of members and equal members in the same order, single specs being equal exactly when their texts are; equality is reflexive, symmetric and transitive. "
 "Equal trees accept the same versions.",
 ["inputs"],"every pair of trees",
 "The tests rely on tree equality as their oracle and never test it for inequality.",
 [V+"spec_trees.rs"],[("PartialEq for ConstraintTree / VersionSpecOrConstraintTree / VersionSpec",V+"spec_trees.rs")],["==/!= on trees and specs"])
p("T06","Printing any version, spec, tree or error terminates",
 "Every debug or display form (plain and pretty) of a version, a version part, a spec, a spec tree, an operator or a parse error terminates without crashing. "
 "The plain debug form of a tree that can be written as text shows that text, and the debug form of a single spec contains its text.",
 ["inputs"],"every value of these types, including trees of any shape the constructors allow",
 "Only the debug form of one version is tested; a failing tree assertion would itself print a tree.",
 [V+"spec_trees.rs",V+"version.rs",V+"version_part.rs",V+"errors.rs"],[("Debug impls",V+"spec_trees.rs"),("Debug/Display for Version, VersionPart",V+"version.rs")],["format!(\"{:?}\")","format!(\"{:#?}\")"])
p("D01","Loading a repodata file preserves every record",
 "Loading a well-formed repodata file (file names distinct within a section) yields exactly the packages, per section and file name, that the file lists, each with exactly the build, build number, dependencies in order, hashes, name, size, timestamp and version written there, together with the subdir, the format version and the removed list. "
 "No record is dropped, merged, moved between sections or altered.",
 ["inputs"],"every well-formed repodata document",
 "One file is loaded and only its subdir is looked at.",
 ["core/src/repodata/repodata.rs"],[("read_repodata, serde derives","core/src/repodata/repodata.rs")],["read_repodata"])
p("D02","A damaged or ill-typed repodata file is reported, never accepted or fatal",
 "A repodata file that is missing, unreadable, not UTF-8, truncated at any byte, not JSON, or that lacks a required field, repeats one, or gives one a value of the wrong type or out of range, or a version that does not parse, makes loading return an error (a JSON array listing all of an object's fields in order is not counted as a wrong type). "
 "Loading never panics and never returns a partial or altered set of packages.",
 ["fault_sequences","crash_points","inputs"],"every truncation point and every single damage to a document",
 "No failing load is tested at all.",
 ["core/src/repodata/repodata.rs",V+"parsers/conda.rs"],[("read_repodata, deserialize_json_str_to_version","core/src/repodata/repodata.rs")],["read_repodata"])
p("D03","Loading depends on what a repodata document says, not how it is written",
 "Two JSON documents that denote the same repodata (differing in key order, whitespace, string escapes, or additional unknown keys) load to the same result.",
 ["inputs"],"every re-serialisation of a document",
 "Only one file, in one serialisation, is loaded.",
 ["core/src/repodata/repodata.rs"],[("serde derives, version deserialisation","core/src/repodata/repodata.rs")],["read_repodata"])
p("D04","Loading gives the same however the bytes of the document reach it",
 "However the system delivers a well-formed repodata file (in reads of any sizes, interrupted by signals, through a pipe or a link, under any file name), loading gives what the file says. If opening it or any read fails, or the data end before the document does, loading returns an error; it never panics, hangs or returns part of the document. "
 "Reading the same document as a Repodata, or one of its records or its info object, from any other JSON source (a text, bytes, a stream in pieces of any size, an already parsed value) gives the same result, and so does a damaged one.",
 ["fault_sequences","schedules","inputs"],"every division of a document into reads and every place at which a read is interrupted, fails or finds the end",
 "The one file loaded by the tests is delivered whole, by reads that never fail.",
 ["core/src/repodata/repodata.rs"],[("read_repodata: reading the file; Deserialize of Repodata, Record, RepodataInfo","core/src/repodata/repodata.rs")],["read_repodata","serde_json::from_reader / from_value of Repodata, Record, RepodataInfo"])
p("H01","Answers do not depend on earlier calls or on the calling thread",
 "Parsing, comparing, matching, tree parsing and tree writing are functions of their arguments: the same query gives the same answer whatever calls came before it, how many they were, which threads made them and in which order, and whatever calls run at the same time. "
 "Values already obtained are not changed by later calls.",
 ["histories","schedules"],"every sequence of calls, every distribution of them over threads and every interleaving of overlapping calls",
 "Each unit test makes a handful of calls in its own order; nothing checks an answer again after other calls.",
 [V+"parsers/conda.rs",V+"matching.rs",V+"spec_trees.rs",V+"custom_parts/pep440.rs"],[("lazily built shared regexes and tables (lazy_static)",V+"matching.rs"),("pure functions elsewhere; memoisation is a TODO in the tests",V+"matching.rs")],
 ["all public calls"],state=[("LETTER_NUMBER_RE, VSPEC_TOKENS, DEV_RE, POST_RE, VERSION_RELATION_RE, OPERATOR_START","shared lazily built globals",V)],hook=HOOK)
p("R01","A dependency solution satisfies every dependency of every chosen package",
 "Whenever dependency resolution succeeds, each chosen package's dependencies are met by the chosen versions and exactly one version of each package is chosen; whenever it fails, no such choice exists.",
 ["inputs","histories"],"every package universe",
 "The resolver is not compiled (its module is commented out) and has no tests.",
 ["core/src/resolve/mod.rs","core/src/resolve/incompat.rs","core/src/resolve/assignment.rs"],[("Resolver","core/src/resolve/mod.rs")],["Resolver::solve"])
p("R02","The package graph contains every record and every dependency edge",
 "Populating the graph from repodata adds one node per record, and resolving edges connects every record to exactly the records its dependencies accept.",
 ["inputs"],"every repodata set",
 "The graph module is not compiled (commented out), its edge resolution is an empty loop, and it has no tests.",
 ["core/src/graph/graph.rs"],[("populate_graph, resolve_edges","core/src/graph/graph.rs")],["populate_graph"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P),"properties")
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
