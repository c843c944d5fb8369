// Exhaustive exploration of operation histories of hg::fibonacci_heap against a sorted reference.
// usage: heap <nA> <shapeA> <nB> <shapeB> <depth> <first-op-lo> <first-op-hi> | heap big <n> | heap replay ...
// An initial pair of heaps is built (n keys pushed in an order given by `shape`, then some pops), and every history of
// `depth` operations is run from it (each from scratch), checked after every operation, and drained at the end.
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "higra/structure/fibonacci_heap.hpp"

struct val {
    int key, id;
    bool operator<(const val &o) const { return key < o.key; }
};
using heap = hg::fibonacci_heap<val>;
using handle = heap::value_handle;

static unsigned long long n_hist = 0, n_ops = 0, n_cmp = 0, outcomes = 0;
static std::string trace_;

static void fail(const char *what) {
    printf("FAIL %s after: %s\n", what, trace_.c_str());
    fflush(stdout);
    exit(1);
}

static void note(const char *o, int a = -1, int b = -1) {
    char t[64];
    snprintf(t, 64, a < 0 ? "%s " : b < 0 ? "%s(%d) " : "%s(%d,%d) ", o, a, b);
    trace_ += t;
    ++n_ops;
}

struct world {
    std::unique_ptr<heap> h[2];
    std::vector<handle> hd;      // handle by id
    std::vector<int> key;        // model: key by id
    std::vector<int> where;      // model: heap of the id, -1 = gone

    world() { h[0].reset(new heap()); h[1].reset(new heap()); }

    int count(int w) { int c = 0; for (int x: where) c += x == w; return c; }

    int minkey(int w) { int m = 1 << 30; for (size_t i = 0; i < key.size(); i++) if (where[i] == w && key[i] < m) m = key[i]; return m; }

    void push(int w, int k) {
        note(w ? "pushB" : "push", k + 1000);
        int id = (int) key.size();
        hd.push_back(h[w]->push(val{k, id}));
        key.push_back(k);
        where.push_back(w);
        if (hd[id]->get_value().id != id) fail("push returned another element");
    }

    void pop(int w) {
        note(w ? "popB" : "pop");
        val v = h[w]->top()->get_value();
        if (v.id < 0 || v.id >= (int) key.size() || where[v.id] != w) fail("top is not an element of the heap");
        h[w]->pop();
        where[v.id] = -1;
    }

    void check() {
        for (int w = 0; w < 2; w++) {
            ++n_cmp;
            int c = count(w);
            if ((int) h[w]->size() != c) fail("wrong size");
            if (h[w]->empty() != (c == 0)) fail("wrong empty()");
            if (c) {
                handle t = h[w]->top();
                if (t == nullptr) fail("no top in a non empty heap");
                val v = t->get_value();
                if (v.id < 0 || v.id >= (int) key.size() || where[v.id] != w) fail("top is not an element of the heap");
                if (v.key != key[v.id] || hd[v.id] != t) fail("top does not match its handle");
                if (v.key != minkey(w)) fail("top is not a minimum");
            } else if (h[w]->top() != nullptr) fail("top of an empty heap");
        }
        for (size_t i = 0; i < key.size(); i++)
            if (where[i] >= 0) {
                val v = hd[i]->get_value();
                if (v.id != (int) i || v.key != key[i]) fail("a live handle lost its value");
            }
    }

    void drain() {
        for (int w = 0; w < 2; w++)
            while (count(w)) {
                pop(w);
                check();
            }
    }
};

// operations: index -> meaning, for at most `slots` live elements addressed by rank
enum { PUSH_LOW, PUSH_MID, PUSH_HIGH, POP, CLEAR, MERGE, POPB, PUSHB, MOVE, SWAP, MOVE_OVER, PER };
static const int PER_OPS = 6;   // erase, decrease to a new minimum, decrease by one, increase over the maximum, increase by one, update to equal

static bool apply(world &W, int op) {
    if (op < PER) {
        switch (op) {
            case PUSH_LOW: W.push(0, -5); return true;
            case PUSH_MID: W.push(0, 2); return true;
            case PUSH_HIGH: W.push(0, 60); return true;
            case POP: if (!W.count(0)) return false; W.pop(0); return true;
            case CLEAR: note("clear"); W.h[0]->clear(); for (auto &x: W.where) if (x == 0) x = -1; return true;
            case MERGE: note("merge"); W.h[0]->merge(*W.h[1]); for (auto &x: W.where) if (x == 1) x = 0; return true;
            case POPB: if (!W.count(1)) return false; W.pop(1); return true;
            case PUSHB: W.push(1, 1); return true;
            case MOVE: {
                note("move");
                std::unique_ptr<heap> n(new heap(std::move(*W.h[0])));
                if (!W.h[0]->empty() || W.h[0]->size() != 0) fail("moved from heap is not empty");
                W.h[0] = std::move(n);
                return true;
            }
            case SWAP: W.h[0].swap(W.h[1]); note("swap"); for (auto &x: W.where) if (x >= 0) x = 1 - x; return true;
            case MOVE_OVER: {   // move assignment, the target's elements are gone
                note("move_assign");
                heap &r = (*W.h[0] = std::move(*W.h[1]));
                if (&r != W.h[0].get()) fail("move assignment does not return its target");
                for (auto &x: W.where) x = x == 0 ? -1 : x == 1 ? 0 : x;
                return true;
            }
        }
    }
    int r = (op - PER) / PER_OPS, k = (op - PER) % PER_OPS;
    int id = -1;
    for (size_t i = 0; i < W.key.size(); i++)
        if (W.where[i] >= 0 && r-- == 0) { id = (int) i; break; }
    if (id < 0) return false;
    int w = W.where[id];
    int mx = -(1 << 30);
    for (size_t i = 0; i < W.key.size(); i++) if (W.where[i] == w) mx = std::max(mx, W.key[i]);
    int nk = W.key[id];
    switch (k) {
        case 0: note("erase", id); W.h[w]->erase(W.hd[id]); W.where[id] = -1; return true;
        case 1: nk = W.minkey(w) - 1; note("decrease", id, nk + 1000); W.h[w]->decrease(W.hd[id], val{nk, id}); break;
        case 2: nk -= 1; note("update-", id, nk + 1000); W.h[w]->update(W.hd[id], val{nk, id}); break;
        case 3: nk = mx + 1; note("increase", id, nk + 1000); W.h[w]->increase(W.hd[id], val{nk, id}); break;
        case 4: nk += 1; note("update+", id, nk + 1000); W.h[w]->update(W.hd[id], val{nk, id}); break;
        case 5: note("update=", id); W.h[w]->update(W.hd[id], val{nk, id}); break;
    }
    W.key[id] = nk;
    return true;
}

static void build(world &W, int w, int n, int shape) {
    // shape: order (increasing, decreasing, interleaved, equal, two values) * 3 (no pop, one pop, pop+push+pop)
    int o = shape / 3, m = shape % 3;
    for (int i = 0; i < n; i++) {
        int k = o == 0 ? 2 * i : o == 1 ? 2 * (n - i) : o == 2 ? 2 * ((i * 5 + 3) % (n ? n : 1)) : o == 3 ? 4 : 4 * (i % 2);
        W.push(w, k);
    }
    if (m >= 1 && n) W.pop(w);
    if (m >= 2 && n) { W.push(w, 3); W.push(w, 7); W.pop(w); }
}

static int args_[7];

static bool run(const std::vector<int> &ops, bool leaf) {
    world W;
    trace_.clear();
    build(W, 0, args_[0], args_[1]);
    build(W, 1, args_[2], args_[3]);
    if (ops.empty()) W.check();
    for (size_t i = 0; i < ops.size(); i++) {
        if (!apply(W, ops[i])) return false;
        if (i + 1 == ops.size()) W.check();
    }
    if (leaf) {
        W.drain();
        ++n_hist;
    }
    return true;     // heaps which are not drained are destroyed full (leaf == false)
}

static void explore(std::vector<int> &ops, int depth, int slots) {
    int n = PER + PER_OPS * slots;
    int lo = ops.empty() ? args_[5] : 0, hi = ops.empty() ? std::min(n, args_[6]) : n;
    for (int op = lo; op < hi; op++) {
        ops.push_back(op);
        if (run(ops, true) && (int) ops.size() < depth) explore(ops, depth, slots);
        ops.pop_back();
    }
}

static void big(int n) {
    world W;
    // more elements than a block of the node pool: several passes of push / pop / erase / decrease over the whole heap
    for (int pass = 0; pass < 2; pass++) {
        std::multiset<int> ref;
        heap h;
        std::vector<handle> hd;
        std::vector<int> key;
        for (int i = 0; i < n; i++) {
            int k = (int) ((i * 7919LL) % (n + 3));
            hd.push_back(h.push(val{k, i}));
            key.push_back(k);
            ref.insert(k);
            ++n_ops;
        }
        std::vector<char> live(n, 1);
        for (int i = 0; i < n; i++) {
            if (live[i] && i % 3 == 0) { h.erase(hd[i]); live[i] = 0; ref.erase(ref.find(key[i])); ++n_ops; }
            if (live[i] && i % 3 == 1) { ref.erase(ref.find(key[i])); key[i] -= i % 50; ref.insert(key[i]); h.update(hd[i], val{key[i], i}); ++n_ops; }
            if (i % 11 == 0 && !h.empty()) {
                val v = h.top()->get_value();
                ++n_cmp;
                if (v.key != *ref.begin() || !live[v.id] || key[v.id] != v.key) { trace_ = "big"; fail("top is not a minimum"); }
                ref.erase(ref.begin());
                live[v.id] = 0;
                h.pop();
                ++n_ops;
            }
            if (h.size() != ref.size()) { trace_ = "big"; fail("wrong size"); }
        }
        if (pass == 0)
            while (!h.empty()) {
                val v = h.top()->get_value();
                ++n_cmp;
                if (ref.empty() || v.key != *ref.begin() || !live[v.id]) { trace_ = "big"; fail("top is not a minimum"); }
                ref.erase(ref.begin());
                live[v.id] = 0;
                h.pop();
                ++n_ops;
            }
        if (pass == 0 && !ref.empty()) { trace_ = "big"; fail("elements lost"); }
        ++n_hist;
    }
}

int main(int argc, char **argv) {
    if (argc == 3) {
        big(atoi(argv[2]));
    } else {
        for (int i = 0; i < 7; i++) args_[i] = atoi(argv[i + 1]);
        std::vector<int> ops;
        run(ops, true);
        explore(ops, args_[4], args_[0] + args_[2] + 2);
    }
    printf("OK histories=%llu ops=%llu checks=%llu\n", n_hist, n_ops, n_cmp);
    return 0;
}
