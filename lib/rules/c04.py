"""C04: operators with one input deliver each row with its multiplicity or drop it for the stated reason."""
import ops, opspecs1


def run(rep, tier):
    mod = ops.rdf_module()
    rep.explain = 'Abstract interpretation of the constructor, first() and next() of the operators over every call history (fixpoint over the reachable object states), with an input that delivers an arbitrary number of arbitrary rows.'
    rep.rule('a row leaves the operator once, with the multiplicity of the input row, or is dropped for the reason the operator exists for (value filter: membership in the list; nested loop filter: none; limit: offset, limit and duplicate handling); 0 is returned only when the input is exhausted (limit: or the limit is reached); all output registers are set before a row is delivered')
    rep.assumptions = ['inputs follow the operator protocol: first() starts over, 0 means exhausted']
    rep.parts((opspecs1.run_filter, opspecs1.run_filter_ctor, opspecs1.run_nlf, opspecs1.run_assign, opspecs1.run_table, opspecs1.run_values, opspecs1.run_trivial, opspecs1.run_limit), rep, mod)
