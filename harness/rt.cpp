// Native runtime: executes one harness run on concrete values.
// usage: prog VALUESFILE [params...]; environment VF_REFS: colon-separated reference tables
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <tuple>
#include <vector>
#include <string>
static std::map<std::tuple<uint64_t, uint64_t, uint64_t>, uint64_t> vals;
static uint64_t ord = 0;
static std::vector<uint64_t> params;
static std::vector<std::vector<uint32_t>> refs; static std::vector<std::string> refPath;
static uint64_t get(uint64_t lo, uint64_t hi)
{
    auto it = vals.find({ ord++, lo, hi });
    return it == vals.end() ? lo : it->second;
}
extern "C"
{
uint64_t __vf_sym(uint64_t lo, uint64_t hi) { if (hi < lo) { printf("VF_ASSUME\n"); fflush(stdout); _Exit(0); } return get(lo, hi); }
uint64_t __vf_raw(int bits) { return get(0, bits >= 64 ? ~0ull : (1ull << bits) - 1); }
uint64_t __vf_choose(uint64_t lo, uint64_t hi) { if (hi < lo) { printf("VF_ASSUME\n"); fflush(stdout); _Exit(0); } return get(lo, hi); }
uint64_t __vf_concretise(uint64_t v) { return v; }
uint64_t __vf_ite(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
void __vf_assume(bool c) { if (!c) { printf("VF_ASSUME\n"); fflush(stdout); _Exit(0); } }
void __vf_assert(bool c, char const* msg) { if (!c) { printf("VF_ASSERT %s\n", msg); fflush(stdout); _Exit(42); } }
void __vf_assert_eq(uint64_t a, uint64_t b, char const* msg) { if (a != b) { printf("VF_ASSERT %s (%llu != %llu)\n", msg, (unsigned long long) a, (unsigned long long) b); fflush(stdout); _Exit(42); } }
void __vf_reach(int id) { printf("VF_REACH %d\n", id); }
void __vf_out(uint64_t v) { printf("VF_OUT %llu\n", (unsigned long long) v); }
uint32_t __vf_ref(int t, uint64_t i)
{
    auto& r = refs.at((size_t) t);
    if (r.empty()) { FILE* f = fopen(refPath.at((size_t) t).c_str(), "rb"); fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); r.resize((size_t) n / 4); if (fread(r.data(), 4, r.size(), f) != r.size()) abort(); fclose(f); }
    return r.at(i);
}
void* __vf_alloc(uint64_t n) { void* p = malloc(n); if (n) memset(p, 0xAA, n); return p; }
void __vf_free(void* p) { free(p); }
uint64_t __vf_param(int k) { return (size_t) k < params.size() ? params[(size_t) k] : 0; }
int __vf_native() { return 1; }
}
// The cpuid and xgetbv instructions of the library are calls of these in native runs, so that a harness can stand in for the processor.
extern "C" __attribute__((weak)) uint32_t vf_cpuid(uint32_t, uint32_t, uint32_t);
extern "C" __attribute__((weak)) uint32_t vf_xgetbv(uint32_t, uint32_t);
extern "C" void vf_native_cpuid(uint32_t* r) // eax, ebx, ecx, edx
{
    uint32_t const leaf = r[0], sub = r[2];
    if (vf_cpuid) { for (uint32_t k = 0; k < 4; k++) r[k] = vf_cpuid(leaf, sub, k); return; }
    __asm__ volatile("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "0"(leaf), "2"(sub));
}
extern "C" void vf_native_xgetbv(uint32_t* r)
{
    if (vf_xgetbv) { uint32_t const x = r[2]; r[0] = vf_xgetbv(x, 0); r[3] = vf_xgetbv(x, 1); return; }
    __asm__ volatile("xgetbv" : "=a"(r[0]), "=d"(r[3]) : "c"(r[2]));
}
#define VF_THUNK(NAME) __asm__(".globl " #NAME "_thunk\n" #NAME "_thunk:\n pushfq\n push %rbp\n mov %rsp, %rbp\n push %rdi\n push %rsi\n push %r8\n push %r9\n push %r10\n push %r11\n" \
    " sub $528, %rsp\n and $-16, %rsp\n mov %eax, (%rsp)\n mov %ebx, 4(%rsp)\n mov %ecx, 8(%rsp)\n mov %edx, 12(%rsp)\n fxsave 16(%rsp)\n mov %rsp, %rdi\n call " #NAME "\n" \
    " fxrstor 16(%rsp)\n mov (%rsp), %eax\n mov 4(%rsp), %ebx\n mov 8(%rsp), %ecx\n mov 12(%rsp), %edx\n lea -48(%rbp), %rsp\n pop %r11\n pop %r10\n pop %r9\n pop %r8\n pop %rsi\n pop %rdi\n pop %rbp\n popfq\n ret\n");
VF_THUNK(vf_native_cpuid)
VF_THUNK(vf_native_xgetbv)
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[1], "r"); if (!f) { printf("VF_NOFILE\n"); return 2; }
    unsigned long long o, lo, hi, v;
    while (fscanf(f, "%llu %llu %llu %llu", &o, &lo, &hi, &v) == 4) vals[{ o, lo, hi }] = v;
    fclose(f);
    for (int i = 2; i < argc; i++) params.push_back(strtoull(argv[i], nullptr, 10));
    if (char const* r = getenv("VF_REFS")) { std::string s = r, cur; for (char c: s + ":") { if (c == ':') { if (!cur.empty()) refPath.push_back(cur); cur.clear(); } else cur += c; } }
    refs.resize(refPath.size());
    vf_main();
    printf("VF_DONE\n");
    return 0;
}
