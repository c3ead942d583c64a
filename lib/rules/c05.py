"""C05: grouping and subtraction of rows."""
import ops, opspecs2


def run(rep, tier):
    mod = ops.rdf_module()
    rep.explain = 'Abstract interpretation of the constructor, first() and next() of the operators that materialise rows, over every call history, with inputs that deliver an arbitrary number of arbitrary rows; the comparison and hashing helpers are analysed on their own.'
    rep.rule('every input row is stored once with its multiplicity and its values; every stored row (distinct grouping: the first of each run of equal rows; hash grouping: one row per distinct key with the sum of the multiplicities) is delivered once')
    rep.rule('a row is subtracted only if an equal row of the other input exists, compared on all registers, and every row of the other input is looked at before a row is kept')
    rep.assumptions = ['inputs follow the operator protocol: first() starts over, 0 means exhausted', 'std::sort orders by the comparator it is given']
    rep.parts((opspecs2.run_group, opspecs2.run_group_helpers, opspecs2.run_hash, opspecs2.run_hash_helpers, opspecs2.run_minus, opspecs2.run_minus_helpers), rep, mod)
