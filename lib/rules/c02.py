"""C02: the joins produce exactly the matching pairs."""
import ops, opspecs, mjspec


def run(rep, tier):
    mod = ops.rdf_module()
    rep.level = 'other'
    rep.explain = 'Abstract interpretation of the constructor, first() and next() of the join operators over every call history (fixpoint over the object states reachable by first, next, next, ...), with inputs that deliver an arbitrary number of arbitrary rows; the merge join as seen from one arbitrary left and one arbitrary right row with the same join value.'
    rep.rule('nested loop join: a row is produced with the product of the multiplicities of the current left and right rows; a left row is left behind only after the right input was exhausted for it; a right row is never skipped; the join ends only when the left input has ended')
    rep.rule('merge join: two rows with the same join value are delivered together exactly once, with the product of their multiplicities and all their registers, and rows with different values never; a row of the side whose partner is optional is delivered alone exactly once if no partner exists; 0 is returned only when nothing is due; skip hints go only to a side whose rows may be skipped')
    rep.assumptions = ['inputs follow the operator protocol: first() starts over, 0 means exhausted', 'children do not modify the join object', 'merge join: both inputs are sorted by the join value, which is not null; at most one side is optional; %d carried registers on each side; skipping is not switched off' % mjspec.NT]
    rep.parts((opspecs.run_nlj, mjspec.run_inner, mjspec.run_left, mjspec.run_right), rep, mod)
