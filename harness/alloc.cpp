// Runs call sequences of spec/Alloc.tla on the real allocators and records the answers (validated by TLC against the specification)
#include "common.h"
#include <reactphysics3d/memory/MemoryManager.h>
#include <thread>
#include <atomic>
#include <cstring>
#include <mutex>
static std::string err; static std::mutex errm;
static void fail(const std::string& s) { std::lock_guard<std::mutex> l(errm); if (err.empty()) err = s; }
// Base allocator: numbers its chunks and guards them on both sides; the default allocator of the library provides the memory
class Base : public MemoryAllocator {
    public: DefaultAllocator def; struct C { char* p; size_t n; int k; }; std::map<char*, C> m; int next = 1; std::atomic<int> calls{0}; std::mutex mx; bool strict = false; static const size_t G = 64;
    void* allocate(size_t n) override { std::lock_guard<std::mutex> l(mx); calls++;
        size_t up = strict ? n : (n+15)/16*16; char* p = (char*)def.allocate(up + 2*G); std::memset(p, 0xA5, n + 2*G); m[p+G] = C{p+G, n, next++}; return p+G; }
    void release(void* q, size_t n) override { std::lock_guard<std::mutex> l(mx); auto it = m.find((char*)q);
        if (it == m.end()) { fail("release of a chunk that is not allocated"); return; }
        if (it->second.n != n) fail("a chunk is released with another size than allocated");
        for (size_t i=0;i<G;i++) if ((unsigned char)((char*)q)[-1-(long)i] != 0xA5 || (unsigned char)((char*)q)[it->second.n+i] != 0xA5) { fail("memory outside of a chunk has been written"); break; }
        std::memset(q, 0xCD, it->second.n); def.release((char*)q - G, n + 2*G); m.erase(it); }
    // chunk of an address: number, offset, size
    bool find(void* q, int& c, long& a, long& z) { std::lock_guard<std::mutex> l(mx); auto it = m.upper_bound((char*)q); if (it == m.begin()) return false; --it;
        c = it->second.k; a = (char*)q - it->second.p; z = (long)it->second.n; return true; }
    long largest() { size_t x = 0; for (auto& kv : m) x = std::max(x, kv.second.n); return (long)x; }
};
struct Blk { unsigned char* p; size_t n; std::string k; int pat; };
static void fillp(Blk& b) { for (size_t i=0;i<b.n;i++) b.p[i] = (unsigned char)(b.pat + i*7); }
static void checkp(const Blk& b) { for (size_t i=0;i<b.n;i++) if (b.p[i] != (unsigned char)(b.pat + i*7)) { fail("the content of an allocated block has changed"); return; } }

static json run(const json& t) {
    err.clear(); int T = t.value("threads", 1); bool full = t.value("full", false), strict = t.value("strict", false); long init = t.value("init", 4096);
    Base base; base.strict = strict || full; std::vector<std::pair<long, json>> rec; std::atomic<long> tick{0}; std::mutex recm;
    {
        std::unique_ptr<MemoryManager> mm; std::unique_ptr<HeapAllocator> heap; std::unique_ptr<PoolAllocator> pool; std::unique_ptr<SingleFrameAllocator> frame;
        if (full) mm.reset(new MemoryManager(&base, init));
        else { heap.reset(new HeapAllocator(base, init)); if (!strict) { pool.reset(new PoolAllocator(base)); frame.reset(new SingleFrameAllocator(base)); } }
        auto al = [&](const std::string& k, size_t n) -> void* {
            if (full) return mm->allocate(k == "heap" ? MemoryManager::AllocationType::Heap : k == "pool" ? MemoryManager::AllocationType::Pool : MemoryManager::AllocationType::Frame, n);
            return k == "heap" ? heap->allocate(n) : k == "pool" ? pool->allocate(n) : frame->allocate(n); };
        auto rel = [&](const std::string& k, void* p, size_t n) {
            if (full) mm->release(k == "heap" ? MemoryManager::AllocationType::Heap : k == "pool" ? MemoryManager::AllocationType::Pool : MemoryManager::AllocationType::Frame, p, n);
            else if (k == "heap") heap->release(p, n); else if (k == "pool") pool->release(p, n); else frame->release(p, n); };
        auto worker = [&](int me) {
            std::map<int, Blk> live; std::vector<std::pair<long, json>> mine;
            auto doAlloc = [&](int id, const std::string& k, size_t n) {
                int g0 = base.calls; long cap = 0; if (T == 1) cap = base.largest();
                void* p = al(k, n); int g = (T == 1 && !(full)) ? base.calls - g0 : -1;
                long tk = tick++; json e; int c = 0; long a = 0, z = 0;
                if (!p || !base.find(p, c, a, z)) { fail("the block is not in memory of the base allocator"); return; }
                if (reinterpret_cast<uintptr_t>(p) % 16) fail("the block is not aligned on 16 bytes");
                e["op"] = "alloc"; e["id"] = id; e["k"] = k; e["n"] = n; e["c"] = c; e["a"] = a; e["z"] = z; e["g"] = g; e["cap"] = T == 1 && strict ? base.largest() - 64 : 0;
                mine.push_back({tk, e}); Blk b{(unsigned char*)p, n, k, id * 31 + (int)tk}; fillp(b); live[id] = b; };
            auto doRel = [&](int id) { auto it = live.find(id); if (it == live.end()) return; checkp(it->second); json e; e["op"] = "release"; e["id"] = id; mine.push_back({tick++, e});
                std::memset(it->second.p, 0xEE, it->second.n); rel(it->second.k, it->second.p, it->second.n); live.erase(it); };
            long cap = T == 1 ? base.largest() : 0; (void)cap;
            for (const auto& o : t["ops"]) {
                std::string op = o["op"];
                if (op == "alloc" && o["id"].get<int>() % T == me) doAlloc(o["id"], o["k"], o["n"].get<size_t>());
                else if (op == "many") { for (int i=1;i<=o["m"].get<int>();i++) { int id = o["id"].get<int>() + i; if (id % T == me) doAlloc(id, o["k"], o["n"].get<size_t>()); } }
                else if (op == "release" && o["id"].get<int>() % T == me) doRel(o["id"]);
                else if (op == "drain") { std::vector<int> v; for (auto& kv : live) if (kv.first % o["q"].get<int>() == 0) v.push_back(kv.first); if (!o["up"].get<bool>()) std::reverse(v.begin(), v.end()); for (int id : v) doRel(id); }
                else if (op == "reset") { std::vector<int> v; for (auto& kv : live) if (kv.second.k == "frame") v.push_back(kv.first); for (int id : v) doRel(id);
                    if (T > 1) continue; if (full) mm->resetFrameAllocator(); else frame->reset(); json e; e["op"] = "reset"; mine.push_back({tick++, e}); }
                else if (op == "whole" && T == 1) { long z = full ? 1000 : base.largest() - 48 - 64; if (z < 16) z = 16; doAlloc(o["id"], "heap", (size_t)z); }
                for (auto& kv : live) if (T == 1 || kv.first % 3 == 0) checkp(kv.second);
            }
            std::vector<int> v; for (auto& kv : live) v.push_back(kv.first); for (int id : v) doRel(id);
            std::lock_guard<std::mutex> l(recm); for (auto& x : mine) rec.push_back(x);
        };
        if (T == 1) worker(0);
        else { std::vector<std::thread> th; std::atomic<int> ready{0}; for (int i=0;i<T;i++) th.emplace_back([&, i] { ready++; while (ready < T) ; worker(i); }); for (auto& x : th) x.join(); }
    }
    std::sort(rec.begin(), rec.end(), [](const std::pair<long,json>& a, const std::pair<long,json>& b) { return a.first < b.first; });
    json out; out["ev"] = json::array(); for (auto& x : rec) out["ev"].push_back(x.second);
    json e; e["op"] = "end"; e["left"] = base.m.size(); out["ev"].push_back(e);
    if (!err.empty()) { json f; f["op"] = "error"; f["text"] = err; out["ev"].push_back(f); }
    return out;
}
int main(int argc, char** argv) { return driverMain(argc, argv, run); }
