// Answers questions about independent one-atom operators. Line: method|species|n,l,j,m;n,l,j,m;...|kr,ka,q;kr,ka,q;... (kr < 0: magnetic moment).
// Answer: energies of the states, then the matrices row by row, as doubles.
#include "sysmodel.hpp"
#include <iostream>
#include <sstream>

static std::vector<std::vector<double>> table(std::string const &s) {
    std::vector<std::vector<double>> r;
    std::stringstream a(s);
    std::string x, y;
    while (std::getline(a, x, ';')) {
        std::stringstream b(x);
        r.emplace_back();
        while (std::getline(b, y, ',')) r.back().push_back(std::stod(y));
    }
    return r;
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::stringstream ss(line);
        std::string method, species, states, ops;
        std::getline(ss, method, '|');
        std::getline(ss, species, '|');
        std::getline(ss, states, '|');
        std::getline(ss, ops, '|');
        std::vector<StateOne> st;
        for (auto const &v : table(states)) st.emplace_back(species, (int)v[0], (int)v[1], (float)v[2], (float)v[3]);
        std::vector<double> out;
        for (auto const &s : st) out.push_back(sm::energy(s));
        int me = std::stoi(method);
        for (auto const &v : table(ops)) {
            sm::M m = v[0] < 0 ? sm::magnetic(st, me, (int)v[2]) : sm::multipole(st, me, (int)v[0], (int)v[1], (int)v[2]);
            for (Eigen::Index i = 0; i < m.rows(); ++i)
                for (Eigen::Index k = 0; k < m.cols(); ++k) out.push_back(m(i, k).real());
        }
        double n = (double)out.size();
        fwrite(&n, sizeof n, 1, stdout);
        fwrite(out.data(), sizeof(double), out.size(), stdout);
        fflush(stdout);
    }
}
