"""C03: the unions produce every row of every part exactly once."""
import ops, opspecs, opspecs1


def run(rep, tier):
    mod = ops.rdf_module()
    rep.explain = 'Abstract interpretation of the constructor, first() and next() of the union operators over every call history, with parts that deliver an arbitrary number of arbitrary rows.'
    rep.rule('each row of each part is delivered once with its own multiplicity (MergeUnion: equal rows of both sides may be delivered as one with the sum), in the order of the parts or of the values; mapped registers receive the value of their source, registers a part does not bind receive null; the union ends only when all parts are exhausted')
    rep.assumptions = ['inputs follow the operator protocol: first() starts over, 0 means exhausted']
    rep.parts((opspecs.run_mu, opspecs1.run_union), rep, mod)
