// Solves a program with clingcon and prints its answers: see demo.sh.
#include <clingcon/parsing.hh>
#include <clingcon/propagator.hh>
#include <algorithm>
#include <iostream>
#include <iterator>
#include <sstream>
using namespace Clingcon;
struct H : Clingo::SolveEventHandler {
    Propagator &p;
    std::vector<std::string> models;
    H(Propagator &p) : p(p) {}
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override { p.on_statistics(step, accu); }
    bool on_model(Clingo::Model &m) override {
        p.on_model(m);
        std::ostringstream o;
        auto syms = m.symbols(Clingo::ShowType::Shown | Clingo::ShowType::Theory);
        std::vector<std::string> v;
        for (auto &s : syms) { v.push_back(s.to_string()); }
        for (auto c : m.cost()) { v.push_back("__csp_cost(\"" + std::to_string(c) + "\")"); }
        std::sort(v.begin(), v.end());
        for (auto &s : v) { o << s << " "; }
        models.push_back(o.str());
        return true;
    }
};
int main(int argc, char **argv) {
    std::string prg((std::istreambuf_iterator<char>(std::cin)), {});
    Propagator p;
    std::vector<char const *> opts;
    auto &c = p.config();
    c.min_int = -20;
    c.max_int = 20;
    bool quiet = false, last = false;
    std::vector<std::string> shots;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto q = a.find('=');
        auto k = a.substr(0, q);
        long long v = 0;
        if (q != std::string::npos && a[0] != '-') { v = std::stoll(a.substr(q + 1)); }
        if (k == "min") { c.min_int = v; }
        else if (k == "max") { c.max_int = v; }
        else if (k == "dist") { c.distinct_limit = v; }
        else if (k == "clause") { c.clause_limit = v; }
        else if (k == "total") { c.clause_limit_total = v; }
        else if (k == "lits") { c.literals_only = v != 0; }
        else if (k == "wcr") { c.weight_constraint_ratio = v; }
        else if (k == "order") { c.add_order_clauses = v != 0; }
        else if (k == "sort") { c.sort_constraints = v != 0; }
        else if (k == "mt") { c.translate_minimize = v; }
        else if (k == "simp") { c.default_solver_config.refine_reasons = v & 1; c.default_solver_config.refine_introduce = (v & 2) != 0; c.default_solver_config.propagate_chain = (v & 4) != 0; c.default_solver_config.split_all = (v & 8) != 0; }
        else if (k == "chk") { c.check_state = v != 0; }
        else if (k == "sign") { c.default_solver_config.sign_value = v; }
        else if (k == "shift") { c.default_solver_config.heuristic = v ? Heuristic::MaxChain : Heuristic::None; }
        else if (k == "quiet") { quiet = true; }
        else if (k == "last") { last = true; }
        else { opts.push_back(argv[i]); }
    }
    // parts separated by lines starting with "%%shot" are added and solved one after another
    {
        std::istringstream in(prg);
        std::string line, cur;
        while (std::getline(in, line)) {
            if (line.rfind("%%shot", 0) == 0) { shots.push_back(cur); cur.clear(); } else { cur += line + "\n"; }
        }
        shots.push_back(cur);
    }
    try {
        Clingo::Control ctl{opts};
        ctl.add("base", {}, THEORY);
        ctl.register_propagator(p);
        int n = 0;
        for (auto &s : shots) {
            std::string name = n == 0 ? "base" : "step" + std::to_string(n);
            Clingo::AST::with_builder(ctl, [&](Clingo::AST::ProgramBuilder &b) {
                auto text = n == 0 ? s : "#program " + name + ".\n" + s;
                Clingo::AST::parse_string(text.c_str(), [&](Clingo::AST::Node const &st) { transform(st, [&](Clingo::AST::Node const &st) { b.add(st); }, true); });
            });
            ctl.ground({{name.c_str(), {}}});
            H h{p};
            ctl.solve(Clingo::LiteralSpan{}, &h, false, false).get();
            if (last && !h.models.empty()) { h.models = {h.models.back()}; }
            std::sort(h.models.begin(), h.models.end());
            if (!quiet) {
                for (auto &m : h.models) { std::cout << m << "\n"; }
            }
            std::cout << "models " << h.models.size() << "\n";
            ++n;
        }
    } catch (std::exception const &e) {
        std::cout << "EXC " << e.what() << "\n";
    }
}
