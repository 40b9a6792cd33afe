"""Configuration of the twenty checks."""
from __future__ import annotations

import json
import os
from dataclasses import dataclass, field

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@dataclass
class Cfg:
    level: str = "other"
    budget: tuple = (22, 600)
    quota: int = 10**9
    extra: int = 100
    rule: str = ""
    technique: str = ""
    note: str = ""


_RULE = "cases come from the exhaustive small-scope sweep and the seeded generators of vf/bounded/{}.py; a case is non-trivial when {}"

PROPS = {
    "C01": Cfg(rule=_RULE.format("c01", "the query selects at least one node of the document")),
    "C02": Cfg(rule=_RULE.format("c02", "the filter was decided by the oracle and applied to a non-empty container")),
    "C03": Cfg(rule=_RULE.format("c03", "the query has at least one match")),
    "C04": Cfg(rule=_RULE.format("c04", "the pointer has at least one reference token")),
    "C05": Cfg(rule=_RULE.format("c05", "the patch has at least one operation")),
    "C06": Cfg(rule=_RULE.format("c06", "the text was accepted by the constructor")),
    "C07": Cfg(rule=_RULE.format("c07", "the query contains a function call, comparison or bounded integer")),
    "C08": Cfg(rule=_RULE.format("c08", "the query selects at least one node")),
    "C09": Cfg(rule=_RULE.format("c09", "the query selects at least one node in some evaluation of the history")),
    "C10": Cfg(rule=_RULE.format("c10", "the query compiled")),
    "C11": Cfg(rule=_RULE.format("c11", "the query selects at least one node")),
    "C12": Cfg(rule=_RULE.format("c12", "the pipeline has at least one stage and the query at least one match")),
    "C13": Cfg(rule=_RULE.format("c13", "the query selects at least one node")),
    "C14": Cfg(rule=_RULE.format("c14", "the pointer has at least one reference token")),
    "C15": Cfg(rule=_RULE.format("c15", "the patch has at least one operation")),
    "C16": Cfg(rule=_RULE.format("c16", "the relative pointer was decided by the oracle")),
    "C17": Cfg(rule=_RULE.format("c17", "at least one identifier is respelled")),
    "C18": Cfg(rule=_RULE.format("c18", "the library accepts the input")),
    "C19": Cfg(rule=_RULE.format("c19", "something is selected below the match")),
    "C20": Cfg(rule=_RULE.format("c20", "the query has at least one match other than the root")),
}

TECHNIQUE = "contract-based deductive verification of the real functions (own VC generator over the Python AST; z3, cvc5), bounded stand-in for the rest"
NOTE = (
    "Contracts on the functions named in the evidence are checked for all inputs against /repo's current source by a symbolic executor whose obligations z3 discharges; "
    "code outside the contracts (listed) is covered by a seeded bounded stand-in only, so the property as a whole is not proved."
)
NOTES = "Entry point bin/check Cnn [--thorough] [--only ded|bounded]. Findings and repairs: KNOWN_FINDINGS.txt. Design and results: DESIGN.md."
