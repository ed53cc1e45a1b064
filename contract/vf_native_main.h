#pragma once
// Driver for the native reading: random search or replay of given inputs.
//   prog search <harness|all> <seed> <seconds> <out>     prog replay <harness> <file>
#include <chrono>
#include <unistd.h>
#include <sys/wait.h>
static std::string vf_run_one(vfn::harness_fn f) {
    try { f(); } catch (vf_discard&) { return "discard"; } catch (vf_failed& e) { return "FAILED " + e.what; }
    return "ok";
}
int main(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "list") { for (auto& e : vfn::table()) { std::printf("%s\n", e.first.c_str()); } return 0; }
    std::string h = argc > 2 ? argv[2] : "";
    auto it = vfn::table().find(h);
    if (it == vfn::table().end()) { std::fprintf(stderr, "no harness %s\n", h.c_str()); return 2; }
    if (mode == "replay") {
        FILE* f = std::fopen(argv[3], "r");
        if (f == nullptr) { return 2; }
        char k[512]; unsigned long v;
        auto& s = vfn::rs();
        s.replay = true;
        while (std::fscanf(f, " %511[^=]=%lu", k, &v) == 2) { s.in[k] = v; }
        std::fclose(f);
        std::string r = vf_run_one(it->second);
        std::printf("%s\n", r.c_str());
        std::fflush(stdout);
        _exit(r.rfind("FAILED", 0) == 0 ? 1 : 0);
    }
    if (mode == "search") {
        unsigned long seed = std::strtoul(argv[3], nullptr, 10);
        double secs = std::strtod(argv[4], nullptr);
        auto t0 = std::chrono::steady_clock::now();
        unsigned long n = 0, done = 0;
        auto& s = vfn::rs();
        while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
            s.in.clear();
            s.rng = (seed + 1) * 0x9E3779B97F4A7C15UL + n * 0xD1B54A32D192ED03UL + 1;
            for (int i = 0; i < 4; ++i) { s.next(); }
            ++n;
            std::string r = vf_run_one(it->second);
            if (r != "discard") { ++done; }
            if (r.rfind("FAILED", 0) == 0) {
                FILE* f = std::fopen(argv[5], "w");
                for (auto& e : s.in) { std::fprintf(f, "%s=%lu\n", e.first.c_str(), e.second); }
                std::fclose(f);
                std::printf("%s runs=%lu\n", r.c_str(), n);
                std::fflush(stdout);
                _exit(1);
            }
        }
        std::printf("ok runs=%lu effective=%lu\n", n, done);
        std::fflush(stdout);
        _exit(0);
    }
    return 2;
}
