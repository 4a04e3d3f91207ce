"""Which generating specifications feed the check of each property, and with what bounds."""


def sim(module, profile, num, **kw):
    return dict(module=module, consts={"Profile": '"%s"' % profile}, num=num, **kw)


def bfs(module, profile, depth=None, tdepth=None, **kw):
    j = dict(module=module, consts={"Profile": '"%s"' % profile}, **kw)
    if depth is not None:
        j["consts"]["Depth"] = depth
    if tdepth is not None:
        j["thorough_consts"] = {"Depth": tdepth}
    return j


PLAN = {
    "C01": [bfs("PatExh", "C01", 3, 4), bfs("PatExh", "F01", 1), bfs("PatExh", "big", 1), sim("PatGen", "C01", 2500)],
    "C02": [sim("FsmGen", "C02", 8000)],
    "C03": [sim("FsmGen", "C03", 8000)],
    "C04": [sim("ScanGen", "C04", 1500), sim("ScanGen", "C04big", 16)],
    "C05": [sim("ScanGen", "C05", 3000), sim("ScanGen", "C05many", 60), sim("ScanGen", "C05huge", 64)],
    "C06": [sim("ScanGen", "C06", 5000)],
    "C07": [sim("ScanGen", "C07", 4000)],
    "C08": [sim("StoreGen", "C08", 6000)],
    "C09": [sim("LifeGen", "C09", 6000), sim("FsmGen", "C09", 2000)],
    "C10": [bfs("PatExh", "F10", 1), bfs("ByteGen", "C10", 1, 2), sim("PatGen", "C10", 1200)],
    "C11": [bfs("PatExh", "F11", 1), sim("PatGen", "C11", 800)],
    "C12": [bfs("PatExh", "C12", 3, 4), bfs("PatExh", "C12s", 3, 4), bfs("PatExh", "C12c", 4, 5), sim("PatGen", "C12", 640)],
    "C13": [bfs("PatExh", "C13", 3, 4, slow=True, timeout=5), sim("PatGen", "C13", 500, slow=True, timeout=5), sim("FsmGen", "C13", 400, slow=True, timeout=5)],
    "C14": [sim("CountGen", "C14", 1800), sim("CountGen", "big", 16)],
    "C15": [sim("CapGen", "C15", 5000)],
    "C16": [sim("CountGen", "C16", 1600), sim("CountGen", "big", 12)],
    "C17": [sim("InlineGen", "C17", 4000, depth=5)],
    "C18": [sim("EasyGen", "C18", 3000), sim("EasyGen", "big", 16)],
    "C19": [sim("ScanGen", "C19", 4000)],
    "C20": [sim("ScanGen", "C20", 2500)],
}

LAWS = {
    "C02": [dict(module="RxLaw", consts={"Depth": 3}, thorough_consts={"Depth": 4}, invariants=["Unary", "Binary"])],
    "C13": [dict(module="RxLaw", consts={"Depth": 3}, thorough_consts={"Depth": 4}, invariants=["Unary"])],
    "C16": [dict(module="GreedyLaw", consts={"Depth": 5}, thorough_consts={"Depth": 7}, invariants=["CountsGreedily"])],
}

COMMON = " Trusts TLC, g++ and the driver that records the results; patterns and histories are sampled or bounded as the evidence says."
NOTES = {
    "C01": "For each pattern tried (all short token strings, all members of the families, random ones) the complete tables of the parsed automaton and the compiled scanner are compared with the specified language on texts of any length." + COMMON,
    "C02": "For each history of automaton operations, some on automata built transition by transition, the complete automaton is compared with the specified language on texts of any length." + COMMON,
    "C03": "As C02; determinism and minimality are computed on the complete automaton." + COMMON,
    "C04": "Complete tables of the six kinds and four conversions are each compared with the specified language on texts of any length; runs are followed on them." + COMMON,
    "C05": "The complete table of the glued scanner is compared with the specified sequence of languages on texts of any length; the limit with the size of the product computed from the parts' tables; products of up to several hundred thousand states from languages \"length = r mod p\", whose product has a computable size." + COMMON,
    "C06": "Runs of scanners of every kind over texts laid out and split in many ways (some ending at an inaccessible page) are followed on the complete table obtained by single steps." + COMMON,
    "C07": "Search results over random texts compared with the specification's, itself bound to the scanner through its complete table." + COMMON,
    "C08": "Histories of scanners of every kind: storing, restoring (loading, mapping), damaging and truncating data; restored scanners are compared through their complete tables." + COMMON,
    "C09": "Histories of values of every kind: copies, assignments, swaps, moves, loads and destructions; every value left is compared through its complete table." + COMMON,
    "C10": "As C01 on well-formed UTF-8 texts; encodings and decodings are compared directly." + COMMON,
    "C11": "As C01; the case mapping is the Unicode simple one on the BMP, tabulated in the specification." + COMMON,
    "C12": "Verdicts (accepted or refused with Pire::Error) compared with the specified grammar, exhaustively on short token strings." + COMMON,
    "C13": "The automaton for distance k is compared with the specified edit-distance language on texts of any length." + COMMON,
    "C14": "Counters after every text up to a bound over the letters of the patterns, and after longer random texts, compared with the longest chains of the specification; glued, stored and copied scanners counter by counter with their components." + COMMON,
    "C15": "Spans reported for random texts, read in pieces, by scanners of random patterns of a decided class, some restored or copied in between, are compared with an ordered-choice matcher written in the specification." + COMMON,
    "C16": "Complete tables of the half-final scanners with the increments on every edge are compared with the specified languages, or machine of pending matches, of every regexp; counters after runs too; the machine is itself checked against leftmost-longest matching." + COMMON,
    "C17": "For each source text the text passed through, the line numbers and the tool's verdict are compared with a C++ lexer written in the specification, and the complete table of every generated scanner with the specified languages; the generated literals are read by a C++ literal reader in the driver." + COMMON,
    "C18": "Verdicts of the one-line interface on sampled patterns, options and texts, by objects copied, swapped and made of compiled scanners, compared with the specified language searched between the marks." + COMMON,
    "C19": "Both members of the pair, of any two kinds, followed on their complete tables." + COMMON,
    "C20": "Complete tables: no final state behind one reported dead, on texts of any length; for compiled scanners also the converse." + COMMON,
}
NOT_APPLICABLE = {}
