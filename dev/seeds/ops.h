// helpers of the demonstrations: scripted inputs and a row collector
#include <rts/operator/Operator.hpp>
#include <rts/runtime/Runtime.hpp>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <sstream>
#include <functional>
struct Reg : public Register { Reg() { value = UINT64_MAX; domain = 0; } };
struct Script : public Operator {
    std::vector<std::vector<uint64_t>> rows;   // values..., multiplicity last
    std::vector<Register*> regs;
    size_t pos = 0; bool asserted = false;
    Script(std::vector<std::vector<uint64_t>> r, std::vector<Register*> g) : Operator(1), rows(r), regs(g) {}
    uint64_t emit() { if (pos >= rows.size()) return 0; for (size_t i = 0; i < regs.size(); ++i) regs[i]->value = rows[pos][i]; return rows[pos++].back(); }
    uint64_t first() { pos = 0; return emit(); }
    uint64_t next() { return emit(); }
    void print(PlanPrinter&) {}
    void addMergeHint(Register*, Register*) {}
    void getAsyncInputCandidates(Scheduler&) {}
};
static std::string run(Operator& o, std::vector<Register*> out, size_t max = 1000) {
    std::ostringstream s;
    size_t n = 0;
    for (uint64_t c = o.first(); c && n < max; c = o.next(), ++n) {
        s << "(";
        for (Register* r : out) { if (r->value == UINT64_MAX) s << "null "; else s << r->value << " "; }
        s << "x" << c << ")";
    }
    return s.str();
}
static int check(const char* what, std::string got, std::string want) {
    if (got == want) return 0;
    printf("%s: got %s instead of %s\n", what, got.c_str(), want.c_str());
    return 1;
}
