#include "exec.h"
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
int main(int argc, char** argv) {
    Exec E; std::string spec, out; double tmo = 300;
    std::vector<std::string> contracts, modules;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i];
        if (a == "--spec") spec = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--contract") contracts.push_back(argv[++i]); else if (a == "--timeout") tmo = atof(argv[++i]); else if (a == "--seed") { E.seed = atoi(argv[++i]); E.rng ^= (uint64_t)E.seed * 0x9E3779B97F4A7C15ull; } else if (a == "-v") E.verbose = true; else if (a == "--samples") E.nSamples = atoi(argv[++i]); else if (a == "--max-paths") E.maxPaths = atoi(argv[++i]); else modules.push_back(a); }
    auto t0 = std::chrono::steady_clock::now();
    for (auto& m : contracts) if (!E.load(m, true)) return 3;
    for (auto& m : modules) if (!E.load(m, false)) return 3;
    E.deadline = std::chrono::duration<double>(t0.time_since_epoch()).count() + tmo;
    E.runSpec(spec);
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    std::ostringstream o; long dis = 0, ref = 0, unk = 0; for (auto& b : E.obs) { if (b.status == "discharged") dis++; else if (b.status == "refuted") ref++; else unk++; }
    o << "{\"spec\":" << js(spec) << ",\"obligations\":" << E.obs.size() << ",\"discharged\":" << dis << ",\"refuted\":" << ref << ",\"unknown\":" << unk << ",\"paths\":" << E.paths << ",\"instructions\":" << E.totalInsts << ",\"terms\":" << TT.count() << ",\"memory_checks\":" << E.memChecks << ",\"wall_s\":" << wall << ",\"solver_s\":" << g_solverTime << ",\"solver_calls\":" << g_solverCalls;
    o << ",\"backends\":{"; bool f = true; for (auto& kv : E.backendCount) { o << (f ? "" : ",") << js(kv.first) << ":" << kv.second; f = false; } o << "}";
    o << ",\"stats\":{"; f = true; for (auto& kv : E.stats) { o << (f ? "" : ",") << js(kv.first) << ":" << kv.second; f = false; } o << "}";
    o << ",\"errors\":["; f = true; for (auto& e : E.errors) { o << (f ? "" : ",") << js(e); f = false; } o << "]";
    std::map<std::string, std::pair<long,long>> labels; for (auto& b : E.obs) { auto& l = labels[b.label]; l.first++; if (b.status == "discharged") l.second++; }
    o << ",\"labels\":{"; f = true; for (auto& kv : labels) { o << (f ? "" : ",") << js(kv.first) << ":[" << kv.second.first << "," << kv.second.second << "]"; f = false; } o << "}";
    o << ",\"failed\":["; f = true; int nf = 0; for (auto& b : E.obs) if (b.status != "discharged") { if (++nf > 60) break; o << (f ? "" : ",") << "{\"label\":" << js(b.label) << ",\"status\":" << js(b.status) << ",\"backend\":" << js(b.backend) << ",\"path\":" << b.path << ",\"seq\":" << b.seq << ",\"detail\":" << js(b.detail) << ",\"inputs\":["; bool g = true; for (auto& c : b.cex) { char v[64]; snprintf(v, 64, "%.17g", std::isfinite(c.second) ? c.second : 0.0); o << (g ? "" : ",") << "[" << js(c.first) << "," << v << "]"; g = false; } o << "],\"ints\":["; g = true; for (auto& c : b.ints) { o << (g ? "" : ",") << "[" << js(c.first) << "," << c.second << "]"; g = false; } o << "]}"; f = false; } o << "]";
    o << ",\"functions\":["; f = true; for (auto& n : E.repoFns) { std::string d = llvm::demangle(n); if (d.find("DynamicalPlanner") == std::string::npos && d.find("levi::") == std::string::npos && d.find("iDynTree") == std::string::npos) continue; o << (f ? "" : ",") << js(d.substr(0, 300)); f = false; } o << "]";
    o << ",\"assumptions\":["; f = true; for (auto& n : E.assumptions) { o << (f ? "" : ",") << js(n); f = false; } o << "]}";
    if (out.empty()) std::cout << o.str() << "\n"; else std::ofstream(out) << o.str() << "\n";
    std::cout.flush(); std::cerr.flush();
    if (getenv("VP_PROF")) exit(0);
    _Exit(E.errors.empty() ? (ref ? 1 : (unk ? 2 : 0)) : 4);
}
