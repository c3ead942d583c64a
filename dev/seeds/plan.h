// query plans as text
#include "db.h"
#include <cts/plangen/PlanGen.hpp>
#include <cts/infra/QueryGraph.hpp>
#include <sstream>
typedef QueryGraph::Node Node;
struct PlanDB : public MemDB {
    double sel; bool sorted;
    PlanDB(double sel = 1, bool sorted = true) : MemDB({}), sel(sel), sorted(sorted) {}
    double cost(DataOrder o) { return ((o >= 6) == sorted) ? 100 + o : 1 + o; }
    double getScanCost(DataOrder o, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t) { return cost(o); }
    double getScanCost(DataOrder o, uint64_t, uint64_t, uint64_t, uint64_t) { return cost(o); }
    double getScanCost(DataOrder o, uint64_t, uint64_t) { return cost(o); }
    double getJoinSelectivity(bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t) { return sel; }
    uint64_t getCardinality(uint64_t, uint64_t, uint64_t) { return 10; }
    uint64_t getCardinality() { return 1000; }
};
// v(n): variable n, c(n): constant n
struct Term { uint64_t id; bool k; };
inline Term v(uint64_t n) { return {n, false}; }
inline Term c(uint64_t n) { return {n, true}; }
inline Node node(Term s, Term p, Term o) {
    Node n; n.subject = s.id; n.predicate = p.id; n.object = o.id; n.constSubject = s.k; n.constPredicate = p.k; n.constObject = o.k; n.additionalData = 0;
    return n;
}
inline QueryGraph::Filter var(unsigned id) { QueryGraph::Filter f; f.type = QueryGraph::Filter::Variable; f.id = id; f.valueid = 0; return f; }
inline std::string show(const Plan* p) {
    static const char* names[] = {"scan", "aggr", "full", "nlj", "merge", "hash", "groupify", "filter", "union", "mergeunion", "function", "singleton", "subselect", "minus", "values", "cart", "groupby", "having", "aggregates"};
    if (!p) return "-";
    std::ostringstream o;
    o << names[p->op];
    if (p->op <= Plan::FullyAggregatedIndexScan) o << p->opArg;
    if (p->op == Plan::MergeJoin) o << "@" << p->opArg;
    if (~p->ordering) o << "^" << p->ordering;
    switch (p->op) {
        case Plan::NestedLoopJoin: case Plan::MergeJoin: case Plan::HashJoin: case Plan::CartProd: case Plan::Union: case Plan::MergeUnion: case Plan::Minus:
            o << "(" << show(p->left) << "," << show(p->right) << ")"; break;
        case Plan::IndexScan: case Plan::AggregatedIndexScan: case Plan::FullyAggregatedIndexScan: case Plan::ValuesScan: case Plan::Singleton: break;
        default: o << "(" << show(p->left) << ")";
    }
    return o.str();
}
