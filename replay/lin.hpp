// histories and linearisability against a small automaton
#ifndef VP_LIN_HPP
#define VP_LIN_HPP
#include <set>
struct Op { char kind; int res; unsigned start, end; };     // res: -1 pending
struct Hist {
    struct { Op a[30]; unsigned n = 0; unsigned size() const { return n; } Op& operator[](unsigned i) { return a[i]; } void push_back(Op o) { if (n == 30) rt::fail("history too long"); a[n++] = o; } } ops;
    unsigned clock = 0;      // lives on the stack: not checked for races
    int begin(char k) { ops.push_back(Op{k, -1, ++clock, ~0u}); return ops.size() - 1; }
    void end(int i, int r) { ops[i].res = r; ops[i].end = ++clock; }
    // step(kind, res, state, out): the states after the operation with that result
    template<class F> bool linear(int init, F step) {
        std::set<std::pair<unsigned, int> > seen;
        unsigned need = 0;
        for (size_t i = 0; i < ops.size(); ++i) if (ops[i].res >= 0) need |= 1u << i;
        return dfs(0, init, need, step, seen);
    }
    template<class F> bool dfs(unsigned done, int st, unsigned need, F& step, std::set<std::pair<unsigned, int> >& seen) {
        if ((done & need) == need) return true;
        if (!seen.insert(std::make_pair(done, st)).second) return false;
        for (size_t i = 0; i < ops.size(); ++i) {
            if ((done | ~need) >> i & 1) continue;
            bool first = true;
            for (size_t j = 0; j < ops.size(); ++j) if (!(done >> j & 1) && (need >> j & 1) && ops[j].end < ops[i].start) first = false;
            if (!first) continue;
            int out[4]; int n = step(ops[i].kind, ops[i].res, st, out);
            for (int k = 0; k < n; ++k) if (dfs(done | 1u << i, out[k], need, step, seen)) return true;
        }
        return false;
    }
    void show() { for (size_t i = 0; i < ops.size(); ++i) rt::note("history: %c [%u, %u] -> %d", ops[i].kind, ops[i].start, ops[i].end, ops[i].res); }
};
#endif
