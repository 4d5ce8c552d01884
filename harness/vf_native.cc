// Native execution of a harness on recorded inputs.
// Exit status: 0 all checks passed, 10 a check failed, 11 assumption not met, 12 inputs out of step.
#include "vf.h"
#include <cstdio>
#include <dlfcn.h>
#include <map>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
static std::vector<std::pair<std::string, int64_t>> inputs;
static size_t pos = 0;
static std::map<std::string, int64_t> params;
extern "C" {
int64_t vf_sym(const char *name, int64_t lo, int64_t hi) {
    if (lo > hi) { std::cout << "SKIP\n"; std::cout.flush(); _Exit(11); }
    if (pos >= inputs.size()) { std::cout << "DESYNC: no value for " << name << std::endl; _Exit(12); }
    auto &p = inputs[pos++];
    if (p.first != name) { std::cout << "DESYNC: expected " << p.first << " got " << name << std::endl; _Exit(12); }
    if (p.second < lo || p.second > hi) { std::cout << "DESYNC: value of " << name << " out of range" << std::endl; _Exit(12); }
    return p.second;
}
void vf_assume(bool c) { if (!c) { std::cout << "ASSUME\n"; std::cout.flush(); _Exit(11); } }
void vf_check(bool c, const char *id) { if (!c) { std::cout << "CHECK-FAILED " << id << std::endl; _Exit(10); } }
void vf_reach(const char *) {}
void vf_need(const char *) {}
void vf_observe(const char *id, int64_t v) { std::cout << "OBS " << id << " " << v << "\n"; }
int64_t vf_param(const char *name, int64_t def) { auto it = params.find(name); return it == params.end() ? def : it->second; }
int64_t vf_concrete(int64_t v) { return v; }
void vf_fail(const char *id) { std::cout << "CHECK-FAILED " << id << std::endl; _Exit(10); }
void vf_skip() { std::cout << "SKIP" << std::endl; _Exit(11); }
void vf_known(const char *id) { std::cout << "KNOWN " << id << "\n"; }
void vf_log(const char *m, int64_t v) { std::cerr << m << " " << v << "\n"; }
bool vf_issym(int64_t) { return false; }
int64_t vf_ite(bool c, int64_t a, int64_t b) { return c ? a : b; }
}
// usage: replay ENTRY INPUTS [NAME=VALUE...]
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line)) {
        if (line.rfind("===", 0) == 0) break;
        if (line.empty() || line[0] == '#') continue;
        auto p = line.rfind(' ');
        inputs.push_back({line.substr(0, p), std::stoll(line.substr(p + 1))});
    }
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        auto p = a.find('=');
        params[a.substr(0, p)] = std::stoll(a.substr(p + 1));
    }
    std::set_terminate([]() { std::cout << "CHECK-FAILED terminate" << std::endl; _Exit(10); });
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, (std::string("harness_") + argv[1]).c_str());
    if (!fn) { std::cout << "no entry " << argv[1] << std::endl; return 2; }
    fn();
    std::cout << "END" << std::endl;
    return 0;
}
