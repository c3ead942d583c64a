// an in-memory database with sorted scans
#include "ops.h"
#include <dblayer.hpp>
#include <algorithm>
#include <array>
struct MemDB : public DBLayer {
    typedef std::array<uint64_t, 3> T;
    std::vector<T> spo;
    MemDB(std::vector<T> t) : spo(t) {}
    struct S : public DBLayer::Scan {
        std::vector<std::array<uint64_t, 4>> rows; size_t p = 0; int keep;
        uint64_t getValue1() { return rows[p][0]; }
        uint64_t getValue2() { return rows[p][1]; }
        uint64_t getValue3() { return rows[p][2]; }
        uint64_t getCount() { return rows[p][3]; }
        bool at(size_t i) { p = i; return p < rows.size(); }
        bool next() { return at(p + 1); }
        bool first() { return at(0); }
        bool first(uint64_t a, bool) { return first(a, true, 0, false, 0, false); }
        bool first(uint64_t a, bool, uint64_t b, bool bb) { return first(a, true, b, bb, 0, false); }
        bool first(uint64_t a, bool, uint64_t b, bool bb, uint64_t c, bool cb) {
            std::array<uint64_t, 4> k = {{a, bb ? b : 0, cb ? c : 0, 0}};
            return at(std::lower_bound(rows.begin(), rows.end(), k) - rows.begin());
        }
    };
    std::unique_ptr<DBLayer::Scan> getScan(const DataOrder o, const Aggr_t aggr, Hint*) {
        static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {2, 1, 0}, {2, 0, 1}, {1, 0, 2}, {1, 2, 0}};
        int q = o < 6 ? o : o == Order_No_Order_SPO ? 0 : o == Order_No_Order_SOP ? 1 : o == Order_No_Order_OPS ? 2 : o == Order_No_Order_OSP ? 3 : o == Order_No_Order_PSO ? 4 : 5;
        int n = aggr == AGGR_NO ? 3 : aggr == AGGR_SKIP_LAST ? 2 : 1;
        std::vector<T> v;
        for (auto& t : spo) { T x = {{0, 0, 0}}; for (int i = 0; i < n; ++i) x[i] = t[perm[q][i]]; v.push_back(x); }
        std::sort(v.begin(), v.end());
        S* s = new S();
        for (auto& t : v) {
            if (!s->rows.empty() && s->rows.back()[0] == t[0] && s->rows.back()[1] == t[1] && s->rows.back()[2] == t[2]) s->rows.back()[3]++;
            else s->rows.push_back({{t[0], t[1], t[2], 1}});
        }
        return std::unique_ptr<DBLayer::Scan>(s);
    }
    bool lookup(const std::string&, ::Type::ID, unsigned, uint64_t&) { return false; }
    bool lookupById(uint64_t, const char*&, const char*&, ::Type::ID&, unsigned&) { return false; }
    bool lookupById(uint64_t, char*, size_t&, ::Type::ID&, unsigned&) { return false; }
    uint64_t getNextId() { return 0; }
    double getScanCost(DataOrder, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t) { return 1; }
    double getScanCost(DataOrder, uint64_t, uint64_t, uint64_t, uint64_t) { return 1; }
    double getScanCost(DataOrder, uint64_t, uint64_t) { return 1; }
    double getJoinSelectivity(bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t) { return 1; }
    uint64_t getCardinality(uint64_t, uint64_t, uint64_t) { return 1; }
    uint64_t getCardinality() { return 1; }
};
