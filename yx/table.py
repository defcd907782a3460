"""property -> rule function, and what the manifest says about it"""
RULES = {
    "C01": "rules_io.c01", "C03": "rules_io.c03", "C04": "rules_io.c04", "C05": "rules_io.c05",
}
LEVEL = {}
TRUST = ["yx/models.py: the models of library functions (std collections, slices, integers, Arc, parking_lot, futures adapters)",
         "rustc's MIR of the crate as dumped by driver/ (overflow checks on, debug assertions off)",
         "the transport, futures-rs and parking_lot keep their documented contracts"]
TECH = "path-sensitive dataflow over rustc MIR (value numbering, linear facts, loops to a fixpoint), rule per property"
NOTE = "Every path through the entry points of the current tree is summarised and every instance of the rule on it must be proved; unproved, unmodelled or missing instances fail. Trusted: the models of library functions in yx/models.py and rustc's MIR."
TECHS = {}
NOTES = {}
for _i in "08 11 12 17 18 20 21 22 23".split():
    RULES["C" + _i] = "rules_stream.c" + _i
for _i in "02 06 07 09 10 13".split():
    RULES["C" + _i] = "rules_conn.c" + _i
for _i in "14 15 16 19 24 25 26 27 28 31 32".split():
    RULES["C" + _i] = "rules_misc.c" + _i
for _i in "34".split():
    RULES["C" + _i] = "rules_panic.c" + _i
for _i in "29 30 33 35 36 38 39".split():
    RULES["C" + _i] = "rules_more.c" + _i
RULES["C37"] = "rules_nopanic.c37"
RULES["C40"] = "rules_dirs.c40"
