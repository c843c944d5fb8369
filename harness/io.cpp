// Reading and writing of files through streams, driven through a line protocol.
#define HG_ENABLE_ASSERT 1
#include "higra/graph.hpp"
#include "higra/structure/tree_graph.hpp"
#include "higra/io/tree_io.hpp"
#include "higra/io/pnm_io.hpp"
#include "higra/io/pink_graph_io.hpp"
#include <iostream>
#include <sstream>
#include <csignal>
#include <sys/resource.h>

std::string hex(const std::string &s) {
    static const char *d = "0123456789abcdef";
    std::string r;
    for (unsigned char c: s) { r += d[c >> 4]; r += d[c & 15]; }
    return r.empty() ? "-" : r;
}

std::string unhex(const std::string &s) {
    std::string r;
    if (s != "-")
        for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char) std::stoi(s.substr(i, 2), nullptr, 16);
    return r;
}

// remembers the bytes in the order in which they are written, and where
struct recorder : std::streambuf {
    std::vector<std::pair<long, std::string>> ops;
    long pos = 0;

    void put(const char *s, long n) {
        if (n <= 0) return;
        if (!ops.empty() && ops.back().first + (long) ops.back().second.size() == pos) ops.back().second.append(s, n);
        else ops.push_back({pos, std::string(s, n)});
        pos += n;
    }

    int_type overflow(int_type c) override {
        char x = (char) c;
        put(&x, 1);
        return c;
    }

    std::streamsize xsputn(const char *s, std::streamsize n) override {
        put(s, n);
        return n;
    }

    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
        if (d == std::ios_base::cur) pos += o;
        else if (d == std::ios_base::beg) pos = o;
        else return pos_type(off_type(-1));
        return pos;
    }

    pos_type seekpos(pos_type p, std::ios_base::openmode) override {
        pos = p;
        return p;
    }
};

int main() {
    std::ios::sync_with_stdio(false);
    signal(SIGXFSZ, SIG_IGN);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string cmd;
        in >> cmd;
        std::ostringstream out;
        try {
            if (cmd == "TREESAVE") { // n parents; k names (hex) and values -> position and bytes of each run of writes
                size_t n, k;
                in >> n;
                hg::array_1d<hg::index_t> p = xt::empty<hg::index_t>({n});
                for (auto &x: p) in >> x;
                hg::tree t(p);
                recorder rec;
                std::ostream o(&rec);
                {
                    auto s = hg::save_tree(o, t);
                    in >> k;
                    for (size_t i = 0; i < k; i++) {
                        std::string name;
                        in >> name;
                        hg::array_1d<double> a = xt::empty<double>({n});
                        for (auto &x: a) in >> x;
                        s.add_attribute(unhex(name), a);
                    }
                    s.finalize();
                }
                out << "OK";
                for (auto &op: rec.ops) out << " " << op.first << " " << hex(op.second);
            } else if (cmd == "PNMSAVE" || cmd == "PNMFILE") {
                size_t h, w, c;
                std::string data, path;
                long limit = 0;
                if (cmd == "PNMFILE") in >> path >> limit;
                in >> h >> w >> c >> data;
                data = unhex(data);
                std::vector<size_t> shape{h, w};
                if (c) shape.push_back(c);
                hg::array_nd<unsigned char> a = xt::empty<unsigned char>(shape);
                std::copy(data.begin(), data.end(), (char *) a.data());
                if (cmd == "PNMSAVE") {
                    std::ostringstream o;
                    hg::pnm_io_internal::save_image_pnm(o, a);
                    out << "OK " << hex(o.str());
                } else {
                    struct rlimit old, now;
                    getrlimit(RLIMIT_FSIZE, &old);
                    now = old;
                    if (limit >= 0) now.rlim_cur = limit;
                    setrlimit(RLIMIT_FSIZE, &now);
                    bool failed = false;
                    try { hg::save_image_pnm(path.c_str(), a); } catch (std::exception &e) { failed = true; }
                    setrlimit(RLIMIT_FSIZE, &old);
                    out << (failed ? "ERR" : "OK");
                    if (!failed) {
                        auto b = hg::read_image_pnm(path.c_str());
                        out << (b.shape() == a.shape() && std::equal(a.begin(), a.end(), b.begin()) ? " same" : " different");
                    }
                }
            } else if (cmd == "PNMREAD") {
                std::string data;
                in >> data;
                std::istringstream s(unhex(data));
                auto a = hg::pnm_io_internal::read_image_pnm(s);
                out << "OK " << a.dimension();
                for (auto d: a.shape()) out << " " << d;
                out << " " << hex(std::string((const char *) a.data(), a.size()));
            } else {
                out << "unknown command";
            }
        } catch (std::exception &e) {
            out.str("");
            out << "ERR";
        }
        std::cout << out.str() << std::endl;
    }
}
