"""What the analyses leave unchanged (C21): the frame conditions of the contracts of every analysis."""
ANALYSES = ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C16", "C22")
CHANGES = {"MACIDBase.remove_all_decision_rules", "CausalBayesianNetwork.intervene"}    # change the diagram by design


def register(reg):
    reg.frames["C21"] = True
    keys = [k for p in ANALYSES for k in reg.claims.get(p, []) if k not in CHANGES]
    reg.claim("C21", *dict.fromkeys(keys), "CausalBayesianNetwork.copy")
    reg.assume("C21", "frame conditions: an analysis that ends without an exception leaves every object that existed before the call equal to what it was")
