"""C06: an operator that is started again produces the same rows as the first time."""
import core, ops, opspecs, opspecs1, opspecs2, mjspec


class Sub(core.Check):
    """forwards only the obligations of restarted runs"""

    def __init__(self, rep):
        core.Check.__init__(self, rep.pid, rep.tier)
        self.rep = rep
        self.functions = rep.functions

    def keep(self, key):
        return ':restart' in key

    def ok(self, kind, key):
        if self.keep(key):
            self.rep.ok(kind, key)

    def fail(self, kind, key, where, msg):
        if self.keep(key):
            self.rep.fail(kind, key, where, msg)

    def undecided(self, kind, key, msg):
        if self.keep(key):
            self.rep.undecided(kind, key, msg)


def run(rep, tier):
    mod = ops.rdf_module()
    rep.explain = 'Abstract interpretation of first() and next() from every object state an earlier, possibly abandoned execution of the operator can leave behind.'
    rep.rule('after first() is called again, in whatever state the operator was left, the row obligations of its specification (C02 to C05) hold as on the first execution')
    rep.assumptions = ['inputs follow the operator protocol and produce the same rows when they are started again']
    sub = Sub(rep)
    rep.parts((opspecs.run_nlj, opspecs.run_mu, opspecs1.run_union, opspecs1.run_filter, opspecs1.run_nlf, opspecs1.run_assign, opspecs1.run_table, opspecs1.run_values, opspecs1.run_trivial, opspecs1.run_limit, opspecs2.run_group, opspecs2.run_hash, opspecs2.run_minus, mjspec.run_inner, mjspec.run_left, mjspec.run_right), sub, mod, True)
