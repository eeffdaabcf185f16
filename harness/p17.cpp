// P17: registers against a reference that stores every history explicitly.
#include "common.hpp"
#include <log_surgeon/finite_automata/RegisterHandler.hpp>
using namespace log_surgeon::finite_automata;
using V = std::vector<int32_t>;
struct N { int64_t parent; int32_t pos; };
struct Model {
    std::vector<N> n{{-1, -1}};
    std::vector<uint32_t> r;
    V hist(uint32_t i) const { V h; int64_t k = i; while (n[k].parent >= 0) { h.push_back(n[k].pos); k = n[k].parent; } return h; }
};
static std::string s(V const& v) { std::string o = "["; for (auto x : v) o += std::to_string(x) + " "; return o + "]"; }
void run(H::Rng& rng) {
    static int32_t const special[] = {0, 1, -1, INT32_MAX, INT32_MIN, 7};
    for (uint64_t it = 0; H::time_left(); it++) {
        PrefixTree t; Model m;            // tree alone
        RegisterHandler h; Model g;       // registers
        std::string log;
        size_t ops = 1 + rng(it % 5 == 0 ? 300 : 25);
        for (size_t o = 0; o < ops; o++) {
            int32_t pos = rng.chance(1, 4) ? special[rng(6)] : static_cast<int32_t>(rng(2000));
            // an out of range number now and then
            auto idx = [&](size_t n) -> size_t { return rng.chance(1, 8) ? n + rng(3) : (rng.chance(1, 3) ? (n ? n - 1 : 0) : rng(n)); };
            unsigned k = rng(8);
            bool threw = false;
            auto line = [&](std::string const& x) { log += x + "; "; H::cur_case = log; alarm(30); };
            if (k == 0) {
                uint32_t p = static_cast<uint32_t>(rng.chance(1, 50) ? UINT32_MAX : idx(m.n.size()));
                line("tree.insert(" + std::to_string(p) + "," + std::to_string(pos) + ")");
                uint32_t id = 0;
                try { id = t.insert(p, pos); } catch (std::out_of_range const&) { threw = true; }
                H::check(threw == (p >= m.n.size()), "insert rejects exactly the parents that do not exist");
                if (!threw) { H::check_eq<uint64_t>(id, m.n.size(), "id of the inserted node"); m.n.push_back({p, pos}); }
            } else if (k == 1) {
                uint32_t p = static_cast<uint32_t>(idx(m.n.size()));
                line("tree.set(" + std::to_string(p) + "," + std::to_string(pos) + ")");
                try { t.set(p, pos); } catch (std::out_of_range const&) { threw = true; }
                H::check(threw == (p >= m.n.size()), "set rejects exactly the nodes that do not exist");
                if (!threw) m.n[p].pos = pos;
            } else if (k == 2) {
                size_t p = idx(g.n.size());
                line("add_register(" + std::to_string(p) + "," + std::to_string(pos) + ")");
                try { h.add_register(static_cast<uint32_t>(p), pos); } catch (std::out_of_range const&) { threw = true; }
                H::check(threw == (p >= g.n.size()), "add_register rejects exactly the nodes that do not exist");
                if (!threw) { g.r.push_back(static_cast<uint32_t>(g.n.size())); g.n.push_back({static_cast<int64_t>(p), pos}); }
            } else if (k == 3) {
                size_t r = idx(g.r.size());
                line("set_register(" + std::to_string(r) + "," + std::to_string(pos) + ")");
                try { h.set_register(r, pos); } catch (std::out_of_range const&) { threw = true; }
                H::check(threw == (r >= g.r.size()), "set_register rejects exactly the registers that do not exist");
                if (!threw) g.n[g.r[r]].pos = pos;
            } else if (k == 4) {
                size_t a = idx(g.r.size()), b = idx(g.r.size());
                line("copy_register(" + std::to_string(a) + "," + std::to_string(b) + ")");
                try { h.copy_register(a, b); } catch (std::out_of_range const&) { threw = true; }
                H::check(threw == (a >= g.r.size() || b >= g.r.size()), "copy_register rejects exactly the registers that do not exist");
                if (!threw) g.r[a] = g.r[b];
            } else {
                size_t r = idx(g.r.size());
                line("append_position(" + std::to_string(r) + "," + std::to_string(pos) + ")");
                try { h.append_position(r, pos); } catch (std::out_of_range const&) { threw = true; }
                H::check(threw == (r >= g.r.size()), "append_position rejects exactly the registers that do not exist");
                if (!threw) { auto p = g.r[r]; g.r[r] = static_cast<uint32_t>(g.n.size()); g.n.push_back({p, pos}); }
            }
            if (o % 7 == 0 || o + 1 == ops || ops < 30) {
                H::check_eq<uint64_t>(t.size(), m.n.size(), "size of the tree");
                for (size_t i = 0; i < m.n.size() + 2; i++) {
                    bool th = false; V v;
                    try { v = t.get_reversed_positions(static_cast<uint32_t>(i)); } catch (std::out_of_range const&) { th = true; }
                    H::check(th == (i >= m.n.size()), "get_reversed_positions rejects exactly the nodes that do not exist");
                    if (!th) H::check_eq(s(v), s(m.hist(static_cast<uint32_t>(i))), "history of tree node " + std::to_string(i));
                }
                for (size_t i = 0; i < g.r.size() + 2; i++) {
                    bool th = false; V v;
                    try { v = h.get_reversed_positions(i); } catch (std::out_of_range const&) { th = true; }
                    H::check(th == (i >= g.r.size()), "get_reversed_positions rejects exactly the registers that do not exist");
                    if (!th) H::check_eq(s(v), s(g.hist(g.r[i])), "history of register " + std::to_string(i));
                }
            }
        }
        H::begin(log, 30);
    }
}
