// Functions of the C++ library that have no Python counterpart, driven through a line protocol.
#define HG_ENABLE_ASSERT 1
#include "higra/graph.hpp"
#include "higra/structure/tree_graph.hpp"
#include "higra/algo/tree.hpp"
#include <iostream>
#include <sstream>

template<typename A>
void put(const char *name, const A &a) {
    std::cout << " " << name << " " << a.size();
    for (auto x: a) std::cout << " " << (long long) x;
}

int main() {
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string cmd;
        in >> cmd;
        try {
            if (cmd == "SV") {
                size_t n;
                in >> n;
                hg::array_1d<hg::index_t> p = xt::empty<hg::index_t>({n});
                hg::array_1d<double> a = xt::empty<double>({n});
                for (auto &x: p) in >> x;
                for (auto &x: a) in >> x;
                hg::tree t(p);
                auto r = hg::supervertices_hierarchy(t, a);
                auto l = hg::labelisation_hierarchy_supervertices(t, a);
                std::cout << "OK";
                put("labels", r.supervertex_labelisation);
                put("parents", r.tree.parents());
                put("node_map", r.node_map);
                put("labels2", l);
                std::cout << std::endl;
            } else {
                std::cout << "unknown command" << std::endl;
            }
        } catch (const std::exception &e) {
            std::cout << "EXCEPTION " << e.what() << std::endl;
        }
    }
    return 0;
}
