// Replays behaviours of spec/Tree.tla on DynamicAABBTree
#include "common.h"
#include <reactphysics3d/collision/broadphase/DynamicAABBTree.h>
#include <reactphysics3d/containers/Pair.h>
#include <unordered_map>
#include <cstring>
static std::string err;
class Count : public MemoryAllocator {
    public: std::unordered_map<void*, size_t> m;
    void* allocate(size_t n) override { void* p = std::malloc(n ? n : 1); std::memset(p, 0xAB, n); m[p] = n; return p; }
    void release(void* p, size_t n) override { auto it = m.find(p); if (it == m.end()) { err = "release of memory that is not allocated"; return; }
        if (it->second != n) err = "release with another size than allocated"; std::memset(p, 0xCD, it->second); m.erase(it); std::free(p); }
};
static AABB box(const json& b) { return AABB(V4(b[0]), V4(b[1])); }
struct CB : DynamicAABBTreeRaycastCallback {
    std::function<decimal(int32, const Ray&)> f;
    decimal raycastBroadPhaseShape(int32 id, const Ray& r) override { return f(id, r); }
};
static json run(const json& t) {
    json out = json::array(); err.clear();
    Count al; int marks[2000];
    {
    DynamicAABBTree tree(al, decimal(t.value("Pct", 0)) / 4);
    std::map<int, int> node; std::map<int, int> slot; std::map<int, bool> ptr;
    bool usePtr = t.value("ptr", false);
    std::map<int, long> dat;
    auto add = [&](int s, const AABB& b, long d) {
        int id = usePtr ? tree.addObject(b, (void*)&marks[s]) : tree.addObject(b, (uint32)d);
        if (slot.count(id)) err = "a node id is used twice";
        node[s] = id; slot[id] = s; dat[s] = d;
    };
    auto drop = [&](int s) { tree.removeObject(node[s]); slot.erase(node[s]); node.erase(s); };
    for (const auto& o : t["ops"]) {
        std::string op = o["op"]; json r; 
        if (op == "add") add(o["s"], box(o["b"]), o["d"]);
        else if (op == "fill") { for (size_t i=0;i<o["s"].size();i++) add(o["s"][i], box(o["b"][i]), o["d"]); }
        else if (op == "remove") drop(o["s"]);
        else if (op == "removeMany") { std::vector<int> S = o["S"].get<std::vector<int>>(); std::sort(S.begin(), S.end()); if (!o["up"].get<bool>()) std::reverse(S.begin(), S.end()); for (int s : S) drop(s); }
        else if (op == "update") r["r"] = tree.updateObject(node[o["s"]], box(o["b"]), o["f"].get<bool>());
        else if (op == "reset") { tree.reset(); node.clear(); slot.clear(); }
        else if (op == "qBox") { Array<int> a(al); tree.reportAllShapesOverlappingWithAABB(box(o["b"]), a); r["s_r"] = json::array(); for (size_t i=0;i<a.size();i++) { if (!slot.count(a[i])) err = "a query reports a node that is no leaf"; else r["s_r"].push_back(slot[a[i]]); } }
        else if (op == "qNodes") { Array<int32> l(al); for (auto& s : o["l"]) l.add(node[s.get<int>()]); Array<Pair<int32,int32>> a(al);
            tree.reportAllShapesOverlappingWithShapes(l, o["a"].get<unsigned>(), o["z"].get<size_t>(), a); r["s_r"] = json::array();
            for (size_t i=0;i<a.size();i++) { if (!slot.count(a[i].first) || !slot.count(a[i].second)) err = "a query reports a node that is no leaf"; else r["s_r"].push_back(json::array({slot[a[i].first], slot[a[i].second]})); } }
        else if (op == "ray") {
            Vector3 p1 = V4(o["p"]), p2 = V4(json::array({o["p"][0].get<int>()+o["d"][0].get<int>(), o["p"][1].get<int>()+o["d"][1].get<int>(), o["p"][2].get<int>()+o["d"][2].get<int>()}));
            decimal mf = decimal(o["mf"].get<int>()) / 32; std::string mode = o["mode"]; json seen = json::array(); std::map<int,int> val; decimal cur = mf; int n = 0; int best = -1;
            if (mode == "closest") for (auto& v : o["val"]) val[v[0].get<int>()] = v[1].get<int>();
            CB cb; cb.f = [&](int32 id, const Ray& ray) -> decimal {
                if (!slot.count(id)) { err = "the ray visits a node that is no leaf"; return 0; }
                if (!(ray.point1 == p1) || !(ray.point2 == p2)) err = "the ray given to the callback is another one";
                if (ray.maxFraction != cur) err = "the maximum fraction given to the callback is not the smallest one returned so far";
                int s = slot[id]; seen.push_back(s); n++;
                if (mode == "all") return -1; if (mode == "all0") return ray.maxFraction * 2;
                if (mode == "stop") return n >= o["n"].get<int>() ? 0 : -1;
                if (!val.count(s)) { err = "the ray visits a leaf whose box it does not meet"; return -1; }
                decimal f = decimal(val[s]) / 32; if (best < 0 || val[s] < best) best = val[s]; if (f < cur) cur = f; return f; };
            tree.raycast(Ray(p1, p2, mf), cb);
            if (mode == "all" || mode == "all0") r["s_r"] = seen; else if (mode == "stop") r["r"] = n; else r["r"] = best;
        }
        json ob; ob["s_l"] = json::array();
        for (auto& kv : node) {
            const AABB& b = tree.getFatAABB(kv.second); long d = dat[kv.first];
            if (usePtr) { if (tree.getNodeDataPointer(kv.second) != (void*)&marks[kv.first]) err = "the data pointer of a leaf has changed"; }
            else d = tree.getNodeDataInt(kv.second);
            ob["s_l"].push_back(json::array({kv.first, json::array({QV(b.getMin()), QV(b.getMax())}), d}));
        }
        ob["root"] = json::array(); ob["h"]["one"] = json::array();
        if (!node.empty()) { const AABB& b = tree.getRootAABB(); ob["root"] = json::array({QV(b.getMin()), QV(b.getMax())}); ob["h"]["one"] = tree.computeHeight(); }
        r["o"] = ob; if (!err.empty()) { r["e"] = err; err.clear(); }
        out.push_back(r);
    }
    }
    if (!al.m.empty()) out.back()["e"] = "memory of the tree is not released";
    else if (!err.empty()) out.back()["e"] = err;
    return out;
}
int main(int argc, char** argv) { return driverMain(argc, argv, run); }
