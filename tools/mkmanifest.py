"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "check"))
PARSE = "TLA+ trace validation: outcomes and syntax trees of the seven parsers, recorded, are judged by TLC against the recogniser specification Syntax.tla"
EVAL = "TLA+ trace validation: node lists of the evaluators, recorded, are judged by TLC against the evaluation specification Eval.tla"
NOTES = {
    "C01": (PARSE + "; inputs from TLC's complete exploration of the derivation machine Grammar.tla, systematic mutations and random texts; the recogniser itself is model checked against the ABNF of RFC 9535 as data (AbnfAgree.tla)", "Exhaustive for the sentences of the derivation machine up to its bound and all one-token edits of a sample of them; sampled beyond."),
    "C02": (PARSE + ", with registered signatures as a parameter; every standard and custom signature against every kind of argument and use", "All small argument and use combinations for the standard functions and a family of custom signatures; sampled deeper."),
    "C03": (PARSE + " (syntax trees compared node by node)", "Trees of every accepted sentence of the derivation machine and of random texts; trees of two crates are read from their Debug output."),
    "C04": (PARSE + "; the string machine StringMachine.tla enumerates all short strings over the interesting pieces", "All strings of up to three pieces, every escape with every kind of neighbour, all of a sample of scalar values in names and literals."),
    "C05": (PARSE + "; the number machine NumberMachine.tla enumerates all short number texts", "All number texts up to six characters over the number alphabet, boundary values, and random numbers; doubles are compared by their shortest decimal form."),
    "C06": ("TLA+ trace validation: printed forms are parsed back by the code and by Syntax.tla (TraceParse, TraceVariants)", "Sampled queries of all features plus the complete small sentences; spelling variants are compared in groups."),
    "C07": (EVAL + "; EvalMachine.tla explored completely and its behaviours replayed", "All documents of up to three nodes with all queries of up to two segments of an 18 segment alphabet; sampled beyond."),
    "C08": (EVAL + "; SliceMachine.tla explored completely and its behaviours replayed", "All array lengths, starts, ends and steps of the small scope, plus boundary values up to the ends of the accepted range."),
    "C09": (EVAL + "; the laws of comparison are checked by TLC over a pool of values (CompareLaws.tla) and all pairs of the pool are replayed", "All pairs of the value pool under all six operators, as document values and as literals; sampled deep values."),
    "C10": (EVAL + "; small boolean formulas over all assignments", "Formulas of up to three facts over all assignments, existence of every kind of value, nested scopes sampled."),
    "C11": (EVAL + ", with custom functions that observe their arguments", "Tables of calls with every kind of argument; sampled nested calls."),
    "C12": (EVAL + "; matching is decided by derivation sets in IRegexp.tla, whose recogniser is model checked against the ABNF of RFC 9485 as data (AbnfAgree.tla)", "All small patterns of a pattern alphabet on a fixed set of subjects, invalid patterns, and sampled patterns with subjects sampled from their language."),
    "C13": ("TLA+ model checking of the pattern cache (RegexCache.tla) and of sessions of parsers and queries (SessionMachine.tla) and replay of their histories, plus trace validation of recorded histories and concurrent runs against Eval.tla", "All histories of the small cache model; long histories beyond the capacity of the real caches; real threads under the scheduler of the operating system."),
    "C14": (EVAL + ": locations against the normalized paths of the specification, and each path replayed as a query", "Sampled documents with every kind of member name; all control characters."),
    "C15": (EVAL + ": the answers of all evaluators to the same query are judged together", "Behaviours of Grammar.tla and EvalMachine.tla plus random queries of all features."),
    "C16": ("TLA+ model checking of interleaved lazy iterators (LazyIter.tla) and replay of its schedules in the real iterators", "All schedules of the small scope; long random schedules."),
    "C17": ("specification-driven robustness: every behaviour of the grammar, string, number and evaluation machines, mutations and scaled inputs, run in isolated processes and judged as 'an outcome the specification allows'", "Panics, aborts and hangs are seen for the inputs tried; sizes are bounded."),
    "C18": ("TLA+ model checking of persistent lists (ConsList.tla) and replay of all its short histories, plus random long ones, in the real lists", "All histories of up to a few operations on a few lists; random long histories and long lists."),
    "C19": (EVAL + ", in the extended mode of the specification", "Every kind of found value against every kind of target; sampled combinations."),
    "C20": ("TLA+ trace validation: recorded tokens and spans are judged by TLC against Lexical.tla", "Texts of the machines, mutations and random texts."),
    "C21": (PARSE + " and evaluations against Eval.tla", "Every small sentence of the derivation machine and random queries."),
}
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    mods = []
    for m in ("checks_parse", "checks_eval", "checks_state"):
        try:
            mods.append(__import__(m))
        except ModuleNotFoundError:
            pass
    have = {c for m in mods for c in m.CHECKS}
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in have:
            t, n = NOTES[i]
            checks.append(
                dict(
                    property=i,
                    quick_cmd="python3 check/run.py " + i,
                    thorough_cmd="VERIF_TIER=thorough python3 check/run.py " + i,
                    technique=t,
                    level="model_checking",
                    level_note=n + " Trusted: TLC, serde_json's reading of documents, the projection of code values in /verif/harness, and the specification itself.",
                )
            )
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(
        version=1,
        setup_cmd="python3 check/run.py setup",
        hooks=dict(guard="none", enable="no hooks are needed: the harness uses public items, Debug output, and includes private modules by path", source_commits=[]),
        checks=checks,
        not_applicable=na,
        notes="TLA+ specification in spec/, harness crate in harness/, drivers in check/. Known findings: known_findings.json.",
    )
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")


main()
