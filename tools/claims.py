"""What is claimed, with which technique, at which strength."""
TECH = {
    "ref": "static equivalence with a reference definition: both sources are abstractly "
           "interpreted to guarded normal forms (no inputs, no solver) and compared",
    "rules": "dataflow and typestate rules over the whole program: names and signatures are "
             "resolved through the class hierarchy, resources and process state are followed "
             "along every control-flow path",
}
REF = ("Decides that every alternative (path) of the functions named in the evidence agrees with "
       "a reference definition in spec/ wherever both stay inside the understood vocabulary; "
       "alternatives outside it are listed as undecided and raise no alarm. Trusts the "
       "reference definitions, the model of the Python built-ins in dsa/, and that the "
       "arguments have the documented types.")
RULES = ("Decides the rule for every function, path and call site listed in the evidence; what "
         "the resolution cannot follow (dynamic attributes, values from outside) is listed as "
         "undecided and raises no alarm.")
CLAIMS = {
    "C01": ("rules", RULES), "C02": ("rules", RULES), "C03": ("rules", RULES), "C04": ("rules", RULES),
    "C05": ("rules", RULES),
    "C10": ("ref", REF), "C11": ("ref", REF), "C12": ("ref", REF), "C13": ("ref", REF),
    "C14": ("ref", REF), "C15": ("ref", REF), "C16": ("ref", REF), "C21": ("ref", REF), "C30": ("ref", REF),
    "C31": ("ref", REF),
    "C20": ("ref", REF), "C22": ("ref", REF), "C25": ("ref", REF), "C26": ("ref", REF),
    "C27": ("ref", REF),
    "C60": ("ref", REF), "C61": ("ref", REF), "C40": ("ref", REF), "C41": ("ref", REF), "C42": ("ref", REF), "C43": ("ref", REF), "C44": ("ref", REF), "C45": ("ref", REF), "C46": ("ref", REF), "C50": ("ref", REF),
    "C51": ("ref", REF), "C52": ("ref", REF),
    "C17": ("ref", REF), "C23": ("ref", REF), "C47": ("ref", REF), "C48": ("ref", REF),
    "C53": ("ref", REF), "C63": ("ref", REF),
    "C64": ("ref", REF), "C62": ("ref", REF), "C65": ("ref", REF), "C66": ("ref", REF), "C67": ("ref", REF),
    "C70": ("ref", REF), "C71": ("ref", REF), "C73": ("ref", REF),
}
NA = {
    "C90": "optimality of a dynamic programme is a statement about the maximum over all "
           "alignments; no syntactic or dataflow argument in reach bounds it, only the local "
           "recurrences are visible (those are C62)",
    "C91": "correct spelling is a fact about Dutch, not about the shape of the code (how the groups of "
           "digits are put together is C67)",
    "C92": "which cells are recomputed after zeroing depends on runtime scores",
}
NOTES = "All checks parse /repo's current source with the project's own Jython parser."
