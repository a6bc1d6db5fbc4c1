// space.hpp - explicit-state BFS (history replay on fresh real objects, canonical key dedup) and stateless
// enumeration of all operation sequences, over a system that pairs the real object with its reference model.
#pragma once
#include "mc.hpp"
#include <limits>
namespace mc {
template <class Sys, class Op> struct Explorer {
    std::function<void(Sys &)> init, fini, verify;
    std::function<void(Sys &, const Op &)> apply;
    std::function<std::vector<Op>(const Sys &)> menu;
    std::function<std::string(const Sys &)> key;
    std::function<std::string(const Op &)> opstr;
    std::string label;
    size_t state_cap = 3000000;
    std::vector<Op> cur;

    std::string hist() { std::string r = label + ": "; for (auto &o : cur) r += opstr(o) + " ; "; return r; }
    void replay(Sys &s, const std::vector<Op> &h) { live_reset(); init(s); for (auto &o : h) apply(s, o); }

    void bfs() {
        describe = [this] { return hist(); };
        std::unordered_set<std::string> seen; 
        struct Node { int parent; Op op; int depth; };
        std::vector<Node> nodes;
        auto history = [&](int i) { std::vector<Op> h; while (i > 0) { h.push_back(nodes[i].op); i = nodes[i].parent; } std::reverse(h.begin(), h.end()); return h; };
        cur.clear(); step();
        { Sys s; replay(s, {}); verify(s); seen.insert(key(s)); fini(s); }
        nodes.push_back({-1, Op(), 0});
        uint64_t trans = 0; int maxd = 0;
        for (size_t qi = 0; qi < nodes.size(); qi++) {
            std::vector<Op> h = history((int)qi); cur = h;
            std::vector<Op> ms;
            { Sys s; replay(s, h); ms = menu(s); fini(s); }
            for (auto &o : ms) {
                step(); cur = h; cur.push_back(o);
                Sys s; replay(s, h); apply(s, o); verify(s);
                std::string k = key(s); outcome(hash_str(k, hash_str(label)));
                fini(s); trans++;
                if (seen.size() < state_cap && seen.insert(k).second) { nodes.push_back({(int)qi, o, nodes[qi].depth + 1}); maxd = std::max(maxd, nodes[qi].depth + 1); }
            }
        }
        if (seen.size() >= state_cap) sample("%s: STATE CAP HIT", label.c_str());
        count(C_STATES, seen.size()); count(C_TRANS, trans); count(C_TRACES, trans);
        cur = history((int)nodes.size() - 1);
        sample("%s; last state of BFS (depth %d): %s", label.c_str(), maxd, hist().substr(0, 380).c_str());
    }
    // every sequence of exactly/at most `depth` operations; the first op's index selects the shard
    void all_sequences(int depth, size_t shard = 0, size_t nshards = 1) {
        describe = [this] { return hist(); };
        uint64_t traces = 0, trans = 0; size_t idx = 0;
        std::function<void(std::vector<Op> &, int)> rec = [&](std::vector<Op> &h, int d) {
            std::vector<Op> ms;
            { cur = h; Sys s; replay(s, h); ms = menu(s); fini(s); }
            for (auto &o : ms) {
                if (h.size() == 1 && nshards > 1) { if ((idx++ % nshards) != shard) continue; }
                h.push_back(o); cur = h; step();
                Sys s; replay(s, h); verify(s); if (d == 1) outcome(hash_str(key(s), hash_str(label) ^ 0x55)); fini(s);
                traces++; trans += h.size();
                if (d > 1) rec(h, d - 1);
                h.pop_back();
            }
        };
        std::vector<Op> h; rec(h, depth);
        count(C_TRANS, trans); count(C_TRACES, traces);
    }
};
} // namespace mc
