// Result protocol between the monitors and check.py, and the last-words handler that
// attributes a crash, an abort or a hang to the case that was running.
#pragma once
#include "vf.hpp"
#include <csignal>
#include <execinfo.h>
#include <fcntl.h>
#include <unistd.h>
#include <unordered_set>

namespace vf
{
inline char* currentCase()
{
    static char buf[2048] = "(start)";
    return buf;
}
inline void setCurrent(const std::string& key, const std::string& full)
{
    snprintf(currentCase(), 2048, "%s|%s", key.c_str(), full.c_str());
}
inline void lastWords(const char* what)
{
    char b[2600];
    int n = snprintf(b, sizeof b, "\nVIOL %s [%s]\n", currentCase(), what);
    if (n > int(sizeof b) - 1) n = sizeof b - 1;
    if (write(1, b, n)) {}
}
inline void onSignal(int s)
{
    // a hang has to be told from a crash: the driver re-runs hangs
    lastWords(s == SIGALRM ? "hang: no progress within the time limit" : strsignal(s));
    _exit(s == SIGALRM ? 97 : 98);
}
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)());
inline void onDeath() { lastWords("sanitizer report, see log"); }
// a run-time library that gives up (gfortran's bounds checks) calls exit()
inline bool& finished()
{
    static bool f = false;
    return f;
}
inline void onExit()
{
    if (!finished()) lastWords("the process exited in the middle of the call, see log");
}
inline void installHandlers()
{
    atexit(onExit);
    if (__sanitizer_set_death_callback) {
        __sanitizer_set_death_callback(onDeath); // AddressSanitizer
        signal(SIGABRT, onSignal);               // UBSan's own run time: abort_on_error=1
    } else
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, onSignal);
    signal(SIGALRM, onSignal);
}

struct Report {
    long evaluations = 0, nontrivial = 0, compared = 0, violations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, long> perKey, counters, vio;
    std::vector<std::string> samples;

    bool memoryOnly = false; // only what the sanitizers report counts
    void violation(const std::string& key, const std::string& msg)
    {
        if (memoryOnly) return;
        ++violations;
        if (++vio[key] <= 2) {
            std::string m = msg;
            for (auto& c : m)
                if (c == '\n') c = ' ';
            printf("VIOL %s|%s\n", key.c_str(), m.c_str());
            fflush(stdout);
        }
    }
    void evaluated(const std::string& key, const std::string& full, bool nontriv)
    {
        ++evaluations;
        ++perKey[key];
        if (nontriv && distinct.insert(std::hash<std::string>()(full)).second) ++nontrivial;
        if (samples.size() < 6 || (evaluations % 997 == 0 && samples.size() < 12)) {
            if (perKey[key] == 1) samples.push_back(full);
        }
    }
    static std::string q(const std::string& s)
    {
        std::string o = "\"";
        for (char c : s) {
            if (c == '"' || c == '\\') o += '\\';
            if (c >= 0x20) o += c;
        }
        return o + "\"";
    }
    void json(const std::string& path)
    {
        finished() = true;
        if (!path.empty())
            if (FILE* h = fopen((path + ".h").c_str(), "wb")) {
                for (uint64_t x : distinct) fwrite(&x, sizeof x, 1, h);
                fclose(h);
            }
        FILE* f = path.empty() ? stdout : fopen(path.c_str(), "w");
        if (!f) return;
        fprintf(f, "{\"evaluations\":%ld,\"distinct_nontrivial\":%ld,\"compared\":%ld,\"violations\":%ld,", evaluations,
                nontrivial, compared, violations);
        auto mapOut = [&](const char* n, const std::map<std::string, long>& m) {
            fprintf(f, "\"%s\":{", n);
            bool first = true;
            for (auto& kv : m) fprintf(f, "%s%s:%ld", first ? "" : ",", q(kv.first).c_str(), kv.second), first = false;
            fprintf(f, "},");
        };
        mapOut("per_key", perKey);
        mapOut("counters", counters);
        mapOut("violating", vio);
        fprintf(f, "\"samples\":[");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", q(samples[i]).c_str());
        fprintf(f, "]}\n");
        if (f != stdout) fclose(f);
    }
};

struct Opt {
    std::map<std::string, std::string> o;
    Opt(int argc, char** argv)
    {
        for (int i = 1; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
    }
    std::string s(const char* k, const char* d = "") const
    {
        auto it = o.find(k);
        return it == o.end() ? d : it->second;
    }
    long n(const char* k, long d) const
    {
        auto it = o.find(k);
        return it == o.end() ? d : atol(it->second.c_str());
    }
};
} // namespace vf
