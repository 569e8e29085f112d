"""What the check of each property consists of."""

TRUSTED = [
    "the projection of single numbers and strings onto ranks, lengths and pattern/format membership (harness/encode.go)",
    "Go's regexp package and the format validators of santhosh-tekuri/jsonschema v6 for the membership facts",
    "of the generations of a session, those a second validator (santhosh-tekuri v6) rejects and a random subset are replayed in the specification; the specification decides",
]


def session(run, enumerate=(), models=()):
    for m in models:
        run.model(*m) if isinstance(m, tuple) else run.model(m)
    cases = [run.enumerate(*e) if isinstance(e, tuple) else run.enumerate(e) for e in enumerate]
    run.validate(run.drive(cases))


CHECKS = {
    "C01": {"run": lambda r: session(r, ["NumberCases"]), "assumptions": TRUSTED},
    "C02": {"run": lambda r: session(r, ["PatternCases"]), "assumptions": TRUSTED},
}
for _p, _m in {"C03": ["ObjectCases", "NameCases"], "C04": ["UniqueCases", "ArrayCases"], "C05": ["UniqueCases", "TypeCases"]}.items():
    CHECKS[_p] = {"run": lambda r, m=_m: session(r, m), "assumptions": TRUSTED}
for _p, _m in {"C06": ["AnyOfCases", "PlaceAnyCases"], "C07": ["AllOfCases", "BranchCases", "PlaceAllCases"], "C08": ["IfCases", "PlaceIfCases"], "C09": ["NotCases", "NotTypeCases"]}.items():
    CHECKS[_p] = {"run": lambda r, m=_m: session(r, m), "assumptions": TRUSTED}
CHECKS["C10"] = {"run": lambda r: session(r, ["RefCases"]), "assumptions": TRUSTED}
CHECKS["C13"] = {"run": lambda r: (parse(r, "FileParse", ("links", "Inside"), ("siblings", "Listed")), session(r, ["FilePolicyCases"])), "assumptions": ["inotify reports every file that is opened (cases where it is not available are judged by content alone)"]}
CHECKS["C12"] = {"run": lambda r: (parse(r, "HttpParse", ("hops", "OnlySecure"), ("limit", "Limited")), session(r, ["HttpPolicyCases"])), "assumptions": ["every request is made to one of the local servers (other addresses are not reachable in the sandbox)"]}
CHECKS["C11"] = {"run": lambda r: (parse(r, "DocParse", ("again", "Once"), ("flat", "AllOfThem"), ("silent", "TellsFailures"), deep=True), session(r, ["DocCases"])), "assumptions": TRUSTED + ["inotify and the local servers see every document that is read (where inotify is not available only requests are)"]}
CHECKS["C18"] = {"run": lambda r: session(r, ["KeywordGrid"]), "assumptions": ["a case that takes longer than 60 s hangs"]}


def parse(run, module, *broken, deep=False):
    """The machine of a parse, and that its properties need each of the rules."""
    run.model(module, module + "Deep" if deep and run.tier == "thorough" else module, workers=8)
    for b, violated in broken:
        run.model(module, module + "No" + b, expect_violation=violated + " is violated")


def machine(run, *broken):
    """The step by step machine, and that its properties need each of the rules."""
    run.model("Generate", "GenerateDeep" if run.tier == "thorough" else "Generate", workers=8)
    for b, violated in broken:
        run.model("Generate", "GenerateNo" + b, expect_violation=violated + " is violated")


_BUDGET = ["an integer drawn from 0..2^53 equals the draw it was made from, which tells how many steps had been made"]
CHECKS["C14"] = {"run": lambda r: (machine(r, ("cutoff", "NothingStarts"), ("optional", "OnlyOwed")), session(r)), "assumptions": _BUDGET}
CHECKS["C15"] = {"run": lambda r: (machine(r, ("stack", "DepthLimited"), ("depth", "DepthLimited"), ("pop", "Balanced")), session(r, ["RefGraphCases"])),
                 "assumptions": ["a text says cyclic or depth according to why a reference is not followed"]}
CHECKS["C16"] = {"run": lambda r: (machine(r, ("minimise", "Minimal")), session(r)), "assumptions": _BUDGET}
CHECKS["C17"] = {"run": lambda r: (r.model("RetryLoop"), session(r, ["UniqueCases"])), "assumptions": ["the numbers drawn count the candidates: each takes as many as the same schema does without the loop"]}
CHECKS["C19"] = {"run": lambda r: session(r, ["ContradictionCases"]), "assumptions": ["the place an error is reported for is what follows the last arrow of its key"]}
CHECKS["C20"] = {"run": lambda r: (r.model("Share"), r.model("Share", "ShareNocopy", expect_violation="Independent is violated"), r.validate(r.drive([r.enumerate("ShareCases")], race=True))),
                 "assumptions": TRUSTED + ["the race detector of Go reports every pair of conflicting accesses that is not ordered in a run"]}
CHECKS["C22"] = {"run": lambda r: (r.model("Cli"), r.validate(r.drive([r.enumerate("CliCases")], cli=True))), "assumptions": ["the limits are told from the shape of values of schemas that were made for it"]}
CHECKS["C23"] = {"run": lambda r: session(r, ["UntypedCases"]), "assumptions": TRUSTED + ["a type that is on offer is missed by all samples with probability below 1e-6"]}
CHECKS["C24"] = {"run": lambda r: session(r, ["ChoiceCases"]), "assumptions": TRUSTED + ["an offer taken once in n generations is missed by 24 n of them with probability e^-24"]}
CHECKS["C25"] = {"run": lambda r: session(r, ["SizeCases"]), "assumptions": TRUSTED + ["an offer taken once in n generations is missed by 24 n of them with probability e^-24"]}
