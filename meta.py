#!/usr/bin/env python3
"""The properties. Writes properties.jsonl and MANIFEST.json."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

# id, title, statement, over, quantifier text, why tests cannot settle it, files, mechanisms [(name, where)], observe at
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None,
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {})}})


GEN = ["parsing errors and error metadata of ParseSchema", "values returned by Generate"]

prop("C01", "Generated numbers obey every numeric keyword",
     "Every value generated for a number or integer schema satisfies its minimum, maximum, exclusiveMinimum, exclusiveMaximum and multipleOf together and is integral for type integer, however the keywords are combined and wherever the schema is nested. A combination that some value satisfies parses without an error, and a combination of bounds and multipleOf that no value satisfies is reported. (multipleOf on integer schemas is an integer; fractional multiples are claimed for bounds below 1e9 in magnitude.)",
     ["inputs", "histories"], "all combinations of the five numeric keywords (signs, fractions, equal and adjacent bounds, exclusive ends, open ends, magnitudes up to the edge of float precision), all random draws",
     "The tests sample a few dozen fixed ranges with a handful of draws; off-by-one ends only show for particular alignments of bounds, multiples and draws.",
     ["number.go", "rand/rand.go", "parse.go"], [("range narrowing and infinitesimal offsets", "number.go"), ("bounded draws", "rand/rand.go")], GEN)

prop("C02", "Generated strings obey length, pattern and format",
     "Every value generated for a string schema has at least minLength and at most maxLength characters, matches its pattern, and is valid for its format when the format is one the library supports. Length ranges that some string fits and patterns the regular expression engine accepts parse without an error; contradictory lengths are reported.",
     ["inputs", "histories"], "all length ranges, patterns over classes, alternation, groups, repetition and anchors at both ends, every supported format, all random draws",
     "Tests use a few fixed patterns and lengths; padding, truncation and repetition limits depend on the draw.",
     ["string.go", "regex.go", "internal/regen"], [("padding and truncation of sentences", "string.go"), ("pattern generation", "internal/regen")], GEN)

prop("C03", "Generated objects obey every object keyword",
     "Every value generated for an object schema contains all required properties, has between minProperties and maxProperties properties, and each of its properties satisfies the schema that properties, patternProperties or additionalProperties give it (a name is matched by at most one of them), with no property that additionalProperties: false forbids. Satisfiable combinations parse without an error and produce an object, at any nesting depth and for any default size options.",
     ["inputs", "histories", "configurations"], "all combinations of the object keywords over nested sub schemas, default minimum/maximum property options, all random draws",
     "Tests cover single keywords; interactions of counts, required names, patterns and defaults only show for particular combinations.",
     ["object.go", "parse.go"], [("property selection", "object.go"), ("additional and pattern properties", "object.go")], GEN)

prop("C04", "Generated arrays obey every array keyword",
     "Every value generated for an array schema has between minItems and maxItems items, items (or prefixItems, legacy tuple items, additionalItems, unevaluatedItems: false) accept each item in its position, uniqueItems leaves no two equal items, and the number of items that satisfy contains is within minContains and maxContains. Satisfiable combinations parse without an error, at any nesting depth and for any default size options.",
     ["inputs", "histories", "configurations"], "all combinations of the array keywords over nested sub schemas, default minimum/maximum item options, all random draws",
     "Tests cover single keywords with fixed lengths; duplicates and count clashes need particular draws and combinations.",
     ["array.go", "parse.go"], [("item generation", "array.go"), ("unique item retries", "array.go")], GEN)

prop("C05", "enum, const and type lists only yield what they list",
     "A schema with enum yields only listed values, a schema with const yields exactly that value, and a schema with a list of types yields only values of those types that satisfy the keywords that apply to them, at any nesting depth. Values come out with the JSON value they were written with.",
     ["inputs", "histories"], "all JSON values (nested, null, empty, large numbers) as literals, all type lists with keywords of several types, all random draws",
     "Tests pin a few scalar literals.",
     ["enum.go", "const.go", "multiple_type.go", "parse.go"], [("literal generators", "enum.go, const.go"), ("type lists", "multiple_type.go")], GEN)

prop("C06", "Values of anyOf and oneOf fit the alternatives",
     "A value generated for anyOf satisfies at least one alternative and everything next to it, and a value generated for oneOf satisfies exactly one alternative and everything next to it; when alternatives of oneOf overlap so much that no value could be found in the configured attempts, a failure text is produced instead of a wrong value. Every alternative that can be satisfied together with what is next to it is generated for some draw.",
     ["inputs", "histories"], "alternatives of every kind (types, ranges, lengths, literals, discriminators, references, nested lists), overlapping and disjoint, next to other keywords, all random draws",
     "Tests check a few fixed alternatives; whether exactly one matches depends on the values drawn.",
     ["combination.go", "constraint.go", "merge.go"], [("alternative selection", "combination.go"), ("exactly-one constraint with retries", "constraint.go")], GEN)

prop("C07", "Values of allOf satisfy every branch",
     "A value generated for a schema with allOf satisfies every branch and the keywords next to it at the same time, for branches that state types, numeric, length and count bounds, multiples, literals, properties, required names, items, tuples and the properties or items that may come after them, nested or referenced, in any order. A conjunction that a value satisfies parses without an error.",
     ["inputs", "histories"], "conjunctions of up to eight branches over nested schemas, references and nested allOf, all random draws",
     "Tests merge fixed pairs; keywords of one branch that shadow another only show for particular pairs.",
     ["all_of.go", "merge.go", "json.go"], [("merging of schemas", "merge.go")], GEN)

prop("C08", "Values obey if/then/else",
     "A value generated for a schema with if satisfies its then branch when it satisfies the condition and its else branch when it does not, next to the remaining keywords of the schema, for conditionals inline, referenced or inside allOf. Both outcomes of a condition are produced for some draw when both are possible.",
     ["inputs", "histories"], "conditions on literals, booleans, numbers, types of properties or of the value itself, with then, else or both, all random draws",
     "Tests sample a few fixed conditionals.",
     ["if.go", "constraint.go", "merge.go"], [("conditional regeneration", "if.go")], GEN)

prop("C09", "Values never satisfy a negated schema",
     "A value generated for a schema with not does not satisfy the negated schema and satisfies everything next to it, for negations of a single keyword: type, one bound or multiple, a length, pattern or format, a literal, a required name, a count, or another negation (inline, referenced or inside allOf). Such schemas parse without an error when a value satisfies them.",
     ["inputs", "histories"], "negations of each single keyword next to all keywords of the same kind, all random draws",
     "Tests sample fixed negations.",
     ["not.go", "constraint.go"], [("static negation of bounds, types and literals", "not.go"), ("retried constraints", "constraint.go")], GEN)

prop("C10", "Local references mean the schema they point at",
     "A reference by JSON pointer or $id within a document generates what the schema it points at generates, wherever the target is ($defs, definitions, properties, items, patternProperties, additionalProperties, tuple positions, alternatives, and schemas that no values are generated from like those below not and if; names with escapes), however many references are chained, whether the target precedes or follows the reference, and also inside allOf, anyOf, oneOf, if and not. A reference to nothing is reported as an error or yields a text that says it cannot be resolved, never a panic and never another schema's value.",
     ["inputs", "histories"], "all acyclic reference graphs over the supported places and names that need escaping, all random draws",
     "Tests resolve a few fixed references.",
     ["reference.go", "reference_hander.go", "reference_path.go", "merge.go"], [("reference map", "reference_hander.go"), ("reference lookups while merging", "merge.go")], GEN)

prop("C11", "References across documents resolve against their own document",
     "A reference to a sub schema of another document (file or HTTP) generates what that sub schema accepts, where references inside each document are resolved relative to that document, for any graph of documents, whatever the order in which they are reached. Each document is fetched at most once per parse and only if something refers to it, and a document that cannot be fetched or read is reported without affecting the values generated for the rest.",
     ["inputs", "histories", "fault_sequences"], "document graphs with cross references, relative paths, shared and cyclic documents, equal pointers in different documents, missing and broken documents",
     "Tests load one fixed pair of documents.",
     ["document.go", "fetchers.go", "reference_path.go"], [("deferred resolution and document ids", "document.go")], GEN + ["requests that reach an HTTP server", "files that are read"])

prop("C12", "HTTP documents are only fetched as the policy allows",
     "No HTTP request is made unless HTTP fetching is enabled; with allowed hosts only those hosts are contacted, without permission for insecure connections only https is, and both also hold for relative references of fetched documents and for every redirect. A reference the policy denies is reported as an error and one the policy allows is fetched.",
     ["inputs", "configurations", "fault_sequences"], "all policies x reference chains and redirect chains across hosts and schemes",
     "Tests do not serve documents or redirects.",
     ["fetchers.go", "document.go", "schema.go"], [("host and scheme check", "fetchers.go")], ["requests that reach HTTP servers on several hosts", "parse errors"],)

prop("C13", "Files are only read as the policy allows",
     "With file system fetching disabled no referenced file is read; otherwise a referenced file is read only if its real path (after symbolic links and ..) is inside an allowed path and, unless reading outside of it is permitted, inside the current working directory. A reference the policy denies is reported as an error, its content never influences what is generated, and one the policy allows is read.",
     ["inputs", "configurations"], "all policies x directory layouts with nested, sibling and prefix-named directories, symbolic links of files and directories, relative and absolute references",
     "Tests check one traversal.",
     ["fetchers.go", "document.go"], [("containment check on real paths", "fetchers.go")], ["generated values that reveal what was read", "parse errors"])

prop("C14", "Generation ends within the cutoff",
     "Generating ends for every schema that parses, recursive ones with cyclic references allowed included, after a number of steps that the configured cutoff bounds up to the work that was already in progress; from there on nothing but the smallest result is produced. The result is a JSON value in every case.",
     ["inputs", "configurations", "histories"], "recursive and explosive schemas x step limits x reference options",
     "Tests run a few large schemas to the end; they cannot bound all.",
     ["generator.go", "reference.go", "object.go", "array.go", "combination.go"], [("step counter and cutoff", "generator.go")], ["elapsed steps and time of Generate", "size of the value"])

prop("C15", "Reference depth and cycles are limited as configured",
     "Without permission for cycles a reference that is already being resolved yields a text that says so instead of being followed, and references are never nested deeper than one more than the configured maximum depth, at which a text says so. The references being resolved are exactly the enclosing ones at every point, so siblings and repeated generations never affect each other.",
     ["inputs", "configurations", "histories"], "all small reference graphs (chains, diamonds, cycles through properties, items and alternatives) x depth limits x cycle permission",
     "Tests check one cycle.",
     ["reference.go", "reference_hander.go", "generator.go"], [("stack of references", "reference_hander.go"), ("cycle and depth check", "reference.go")], ["generated values", "reference stack of the options"], [("resolutions", "references being resolved", "GeneratorOptions.ReferenceResolver")])

prop("C16", "Past the soft limit only the minimum is generated",
     "Once more steps than the maximum were made, every array that is started has exactly as many items as its schema demands and every object exactly the properties it demands, while results still satisfy the schema; below the limit sizes are chosen freely. The limit never reduces anything below what the schema requires.",
     ["inputs", "configurations", "histories"], "nested arrays and objects with optional parts x step limits, all random draws",
     "Tests do not look at sizes after the limit.",
     ["generator.go", "array.go", "object.go"], [("minimisation", "array.go, object.go")], ["sizes of generated arrays and objects"], [("complexity", "steps made so far", "GeneratorOptions")])

prop("C17", "Retries stay within the configured budget",
     "The number of times a value is generated again for uniqueItems, oneOf, if and not is at most the configured number of attempts, at least one attempt is made, and past the soft limit the attempts for oneOf, if and not shrink proportionally to the steps left, down to one at the cutoff, never growing as more steps are made. Values that a retry could still find within the budget are found.",
     ["inputs", "configurations", "histories"], "all combinations of attempts, soft limit, cutoff and steps made",
     "Tests check a few points of the scale.",
     ["generator.go", "constraint.go", "array.go", "if.go"], [("scaled budget", "generator.go")], ["draws and steps made by Generate"], [("complexity", "steps made so far", "GeneratorOptions")])

prop("C18", "No input makes the library panic",
     "Parsing any bytes returns a generator or an error and never panics or hangs, and whatever could be parsed generates a value that serialises to JSON (schemas that demand more items, properties or characters than fit in memory excepted). This includes schemas with wrong types for keywords, unknown keywords, boolean sub schemas, deep nesting, dangling and cyclic references and contradictory keywords.",
     ["inputs"], "all byte strings: valid schemas, mutated schemas, arbitrary JSON, truncated text",
     "Tests parse well formed schemas.",
     ["parse.go", "schema.go", "merge.go", "not.go"], [("parsing", "parse.go")], ["ParseSchema", "Generate"])

prop("C19", "Contradictory schemas are reported",
     "A schema whose keywords contradict each other at one place (crossed or empty ranges of numbers, lengths, items, properties or contains, no multiple within a range, negative lengths and counts of properties, required names that are too many or that additionalProperties: false forbids, more items than a closed tuple has, no value of an enum, const or list of types left by type, not or allOf, unknown types, malformed patterns, no alternatives, keywords the library does not support) is reported as an error when it is parsed, with a pointer to that place. The error is reported wherever the place is nested, whether the keywords stand together or come together through allOf, and nothing is reported for the same schema without the contradiction.",
     ["inputs"], "each kind of contradiction x nesting positions x merging through allOf",
     "Tests check a few at the root.",
     ["error.go", "assert.go", "parse.go", "object.go", "array.go", "number.go", "string.go"], [("error collection by path", "error.go"), ("assertions", "assert.go")], ["error of ParseSchema", "error metadata"])

prop("C20", "Parsing and generating share no state",
     "Generating never changes the generator or the options it was given: options hold the same values afterwards, what earlier generations did never changes what later ones may produce, and several goroutines may parse and generate with one generator at the same time without a data race or a wrong value. Parsing does not change its options either, and parsing one schema never affects another.",
     ["schedules", "histories"], "all interleavings of parses and generations on shared and separate generators, histories with exhausted budgets and cut off generations in between",
     "Tests generate sequentially with fresh generators.",
     ["root.go", "generator.go", "reference_hander.go", "schema.go"], [("options are copied per generation", "root.go, generator.go")], ["race detector", "values", "options after the call"])

prop("C22", "The command line tool keeps its contract",
     "The tool exits with 0 and writes exactly one JSON document (to standard output, or to the output file), indented if asked for, which the schema accepts unless a problem was reported for it, if the schema could be read and parsed and the output can be written, and otherwise exits with 1, a message on standard error, no output and no output file. An output file that exists is never changed, the limit flags have the effect of the generator options they name, and documents are fetched exactly if the flags allow it: over HTTP only from allowed hosts, from the file system only if allow-outside-cwd or allowed-paths are given and within the allowed paths.",
     ["inputs", "configurations", "fault_sequences"], "combinations of all flags with schemas from file and standard input, existing and impossible output paths, schemas that need fetching",
     "There are no tests of the tool.",
     ["cli/cli.go"], [("flag handling", "cli/cli.go")], ["exit code, standard output and error, files"])

prop("C23", "Untyped schemas generate the types their keywords imply",
     "A schema without a type that has keywords of one type (object, string, number or array) generates values of that type only, with those keywords satisfied. A schema with no keyword that implies a type (an empty schema, annotations only, uniqueItems alone, a boolean additionalProperties alone) generates values of every one of the seven types. This holds wherever the schema stands: at the root, as a property, an item, a branch or a definition. The values always satisfy the schema, and nothing is reported.",
     ["inputs", "histories"], "every keyword alone and combined with others of the same type, nested at every position",
     "Tests cover a few keywords.",
     ["parse.go"], [("type inference", "parse.go")], GEN)

prop("C24", "Every choice that a schema offers is eventually taken",
     "Repeated generation yields every value of an enum, every type of a type list, every branch of anyOf and oneOf that can be satisfied, both sides of a condition that values of the rest of the schema both meet and fail, every integer (or multiple) of a small range including both ends, every string of a small pattern, objects with and without each optional, pattern or additional property, and arrays and objects of every size from the least to the greatest allowed when few are allowed. This holds wherever the choice stands, and for independent choices in every combination. No choice that the schema offers is silently never taken.",
     ["inputs", "histories"], "enums, type lists, alternatives, small integer ranges, optional properties and lengths, nested; a choice with probability p per draw is missed with probability below 1e-9",
     "Tests look at single generations.",
     ["enum.go", "multiple_type.go", "combination.go", "object.go", "array.go", "number.go", "rand/rand.go"], [("random choices", "rand/rand.go")], GEN)

prop("C25", "Default size options bound what a schema leaves open",
     "Where a schema gives no bound of its own, arrays have at least the default minimum and at most the default maximum number of items, and objects at most the default maximum number of properties (and at least the default minimum, as far as properties are available). Required properties, tuple items and minContains come on top where they are more. Where a schema gives a bound it wins over the default, and a default that contradicts a bound of the schema gives way (if the default maximum is below the minimum, it is counted from the minimum). Sizes from the least to the greatest are all taken. Options left at zero mean their documented defaults (0 to 10). This holds wherever the array or object stands.",
     ["inputs", "configurations", "histories"], "default options x schemas with and without own bounds, all random draws",
     "Tests use the defaults.",
     ["generator.go", "array.go", "object.go"], [("defaults", "generator.go"), ("size choice", "array.go, object.go")], ["sizes of generated arrays and objects"])

LEVEL = "model_checking"


def main():
    from checks import CHECKS
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        c = CHECKS.get(p["id"])
        if c is None:
            na.append({"property": p["id"], "reason": "no check yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": c.get("technique", "TLA+ trace validation: histories of the real code replayed in a TLC-checked specification"),
                       "level": LEVEL, "level_note": c.get("note", "Every recorded history of the real code is replayed in the specification by TLC; the specification itself is model checked within the stated bounds. Exploration of schemas and draws is bounded: enumerated grids plus seeded random cases.")})
    json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
               "notes": "TLA+ checked with TLC. No hooks in /repo: all observation is through the public API, the command line tool, scratch files and local servers."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
