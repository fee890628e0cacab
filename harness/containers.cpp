// Replays behaviours of spec/Containers.tla
#include "common.h"
#include <reactphysics3d/containers/Map.h>
#include <reactphysics3d/containers/Set.h>
#include <reactphysics3d/containers/Array.h>
#include <reactphysics3d/containers/Deque.h>
#include <reactphysics3d/containers/Stack.h>
#include <reactphysics3d/containers/LinkedList.h>
#include <unordered_map>
#include <cstring>

static long live = 0; static std::string err;
// Element that owns memory and can be moved by memmove (as the containers do)
struct E {
    int* p;
    E() : p(new int(0)) { live++; }
    E(int v) : p(new int(v)) { live++; }
    E(const E& e) : p(nullptr) { if (!e.p) err = "copy of a dead element"; p = new int(e.p ? *e.p : -1); live++; }
    E& operator=(const E& e) { if (!p || !e.p) { err = "assignment of a dead element"; return *this; } *p = *e.p; return *this; }
    ~E() { if (!p) err = "an element is destroyed twice"; else { delete p; p = nullptr; live--; } }
    int v() const { if (!p) { err = "use of a dead element"; return -1; } return *p; }
    bool operator==(const E& e) const { return v() == e.v(); }
    bool operator!=(const E& e) const { return v() != e.v(); }
};
static int hashMode = 0;
namespace std { template<> struct hash<E> { size_t operator()(const E& e) const { int v = e.v(); return hashMode == 0 ? v : hashMode == 1 ? v % 3 : hashMode == 2 ? size_t(v) * 16 : 7; } }; }

class Count : public MemoryAllocator {
    public: std::unordered_map<void*, size_t> m;
    void* allocate(size_t n) override { void* p = std::malloc(n ? n : 1); std::memset(p, 0xAB, n); m[p] = n; return p; }
    void release(void* p, size_t n) override { auto it = m.find(p); if (it == m.end()) { err = "release of memory that is not allocated"; return; }
        if (it->second != n) err = "release with another size than allocated"; std::memset(p, 0xCD, it->second); m.erase(it); std::free(p); }
};
typedef Map<E,E> M; typedef Set<E> S; typedef Array<E> A; typedef Deque<E> DQ; typedef Stack<E> ST; typedef LinkedList<E> L;

struct All {
    Count al; std::unique_ptr<M> m[2]; std::unique_ptr<S> s[2]; std::unique_ptr<A> a[2]; std::unique_ptr<DQ> d[2]; std::unique_ptr<ST> t[2]; std::unique_ptr<L> l[2];
    All(int cap) { for (int i=0;i<2;i++) { m[i].reset(new M(al, cap)); s[i].reset(new S(al, cap)); a[i].reset(new A(al, cap)); d[i].reset(new DQ(al)); t[i].reset(new ST(al, cap)); l[i].reset(new L(al)); } }
};
static json seqOf(DQ& d) { json r = json::array(); for (size_t i=0;i<d.size();i++) r.push_back(d[i].v());
    size_t k=0; for (auto it=d.begin(); it!=d.end(); ++it,++k) if (k>=d.size() || (*it).v()!=d[k].v()) err = "the deque iterator disagrees with the index"; if (k!=d.size()) err = "the deque iterator visits another number of items"; return r; }
static json seqOf(A& a) { json r = json::array(); for (size_t i=0;i<a.size();i++) r.push_back(a[i].v());
    size_t k=0; for (auto it=a.begin(); it!=a.end(); ++it,++k) if (k>=a.size() || (*it).v()!=a[k].v()) err = "the array iterator disagrees with the index"; if (k!=a.size()) err = "the array iterator visits another number of items";
    if (a.capacity() < a.size()) err = "capacity below size"; return r; }
static json seqOf(ST& t) { ST c(t); json r = json::array(); while (c.size()) { r.push_back(c.pop().v()); } std::reverse(r.begin(), r.end()); return r; }
static json seqOf(L& l) { json r = json::array(); for (auto* e=l.getListHead(); e; e=e->next) r.push_back(e->data.v()); return r; }
template<class T> static json seqObs(std::unique_ptr<T>* x) { json o; o["q"] = json::array({seqOf(*x[0]), seqOf(*x[1])}); o["n"] = json::array({(int)o["q"][0].size(), (int)o["q"][1].size()}); return o; }

static json run(const json& t) {
    hashMode = t.value("hash", 0); live = 0; err.clear();
    json out = json::array();
    {
    All x(t.value("cap", 0));
    for (const auto& o : t["ops"]) {
        std::string op = o["op"]; std::string c = o["c"]; int i = o["i"].get<int>()-1; json r; err.clear();
        auto in = [&](const char* k) { return o[k].get<int>(); };
        if (op == "mAdd") r["r"] = x.m[i]->add(Pair<E,E>(E(in("k")), E(in("v"))), o["b"].get<bool>());
        else if (op == "mFill") { for (int k=in("k");k<=in("k2");k++) x.m[i]->add(Pair<E,E>(E(k), E(in("v"))), true); }
        else if (op == "mRemove") { bool had = x.m[i]->containsKey(E(in("k"))); auto it = x.m[i]->remove(E(in("k"))); if (!had && it != x.m[i]->end()) err = "removing an absent key does not return end()"; }
        else if (op == "mSweep") { int n=0; for (auto it = x.m[i]->begin(); it != x.m[i]->end() && n < 100000; n++) { if (it->first.v() % in("q") == in("m")) it = x.m[i]->remove(it); else ++it; } r["r"] = n; }
        else if (op == "mClear") x.m[i]->clear(o["b"].get<bool>());
        else if (op == "mReserve") x.m[i]->reserve(in("n"));
        else if (op == "mGet") { bool h = x.m[i]->containsKey(E(in("k"))); auto it = x.m[i]->find(E(in("k"))); if (h != (it != x.m[i]->end())) err = "find and containsKey disagree";
            if (h) r["r"] = json::array({true, it->first.v(), it->second.v(), (*x.m[i])[E(in("k"))].v()}); else r["r"] = json::array({false}); }
        else if (op == "mSet") (*x.m[i])[E(in("k"))] = E(in("v"));
        else if (op == "mAssign") *x.m[i] = *x.m[in("j")-1];
        else if (op == "mCopy") x.m[i].reset(new M(*x.m[1-i]));
        else if (op == "sAdd") r["r"] = x.s[i]->add(E(in("k")));
        else if (op == "sFill") { for (int k=in("k");k<=in("k2");k++) x.s[i]->add(E(k)); }
        else if (op == "sRemove") { bool had = x.s[i]->contains(E(in("k"))); auto it = x.s[i]->remove(E(in("k"))); if (!had && it != x.s[i]->end()) err = "removing an absent value does not return end()"; }
        else if (op == "sSweep") { int n=0; for (auto it = x.s[i]->begin(); it != x.s[i]->end() && n < 100000; n++) { if ((*it).v() % in("q") == in("m")) it = x.s[i]->remove(it); else ++it; } r["r"] = n; }
        else if (op == "sClear") x.s[i]->clear(o["b"].get<bool>());
        else if (op == "sReserve") x.s[i]->reserve(in("n"));
        else if (op == "sGet") { bool h = x.s[i]->contains(E(in("k"))); auto it = x.s[i]->find(E(in("k"))); if (h != (it != x.s[i]->end())) err = "find and contains disagree"; if (h && (*it).v() != in("k")) err = "find returns another value"; r["r"] = h; }
        else if (op == "sToArray") { A a = x.s[i]->toArray(x.al); r["s_r"] = seqOf(a); }
        else if (op == "sAssign") *x.s[i] = *x.s[in("j")-1];
        else if (op == "sCopy") x.s[i].reset(new S(*x.s[1-i]));
        else if (op == "aAdd") { if (o["b"].get<bool>()) x.a[i]->emplace(in("v")); else x.a[i]->add(E(in("v"))); }
        else if (op == "aFill") { for (int k=1;k<=in("n");k++) x.a[i]->add(E(1+(in("v")+k)%9)); }
        else if (op == "aRemoveAt") { int p = in("p")-1; A::Iterator it = x.a[i]->begin(); if (o["mode"] == "index") it = x.a[i]->removeAt(p); else it = x.a[i]->remove(x.a[i]->begin() + p);
            r["r"] = json::array({1 + (int)(it - x.a[i]->begin()), it == x.a[i]->end()}); }
        else if (op == "aRemove") x.a[i]->remove(E(in("v")));
        else if (op == "aFind") { auto it = x.a[i]->find(E(in("v"))); r["r"] = it == x.a[i]->end() ? 0 : 1 + (int)(it - x.a[i]->begin()); }
        else if (op == "aSwapOut") x.a[i]->removeAtAndReplaceByLast(in("p")-1);
        else if (op == "aSet") (*x.a[i])[in("p")-1] = E(in("v"));
        else if (op == "aRange") x.a[i]->addRange(*x.a[1-i], in("s"));
        else if (op == "aClear") x.a[i]->clear(o["b"].get<bool>());
        else if (op == "aReserve") { x.a[i]->reserve(in("n")); if ((int)x.a[i]->capacity() < in("n")) err = "reserve() does not give the capacity"; }
        else if (op == "aAssign") *x.a[i] = *x.a[in("j")-1];
        else if (op == "aCopy") x.a[i].reset(new A(*x.a[1-i]));
        else if (op == "aIter" || op == "dIter") {
            auto f = [&](auto& con) { auto b = con.begin(); auto p = b + (in("p")-1); auto q = p; int n = in("q") - in("p");
                if (n >= 0) { if (n % 2) { q += n; } else q = p + n; } else { if (n % 2) { q -= -n; } else q = p - (-n); }
                int vq = (*q).v(); auto z = q; ++z; --z; if (!(z == q)) err = "++ then -- is not the same"; z = q; auto y = z++; if (!(y == q) || z - q != 1) err = "it++ is wrong"; y = z--; if (!(z == q)) err = "it-- is wrong";
                if ((p > q) != (q < p) || (p >= q) != (q <= p) || (p != q) == (p == q)) err = "iterator comparisons are inconsistent";
                r["r"] = json::array({vq, (int)(q - p), p < q, p <= q, p == q}); };
            if (op == "aIter") f(*x.a[i]); else f(*x.d[i]); }
        else if (op == "dBack") x.d[i]->addBack(E(in("v")));
        else if (op == "dFront") x.d[i]->addFront(E(in("v")));
        else if (op == "dFill") { for (int k=1;k<=in("n");k++) { E e(1+(in("v")+k)%9); if (o["b"].get<bool>()) x.d[i]->addBack(e); else x.d[i]->addFront(e); } }
        else if (op == "dPopF") { for (int k=0;k<in("n");k++) x.d[i]->popFront(); }
        else if (op == "dPopB") { for (int k=0;k<in("n");k++) x.d[i]->popBack(); }
        else if (op == "dSet") (*x.d[i])[in("p")-1] = E(in("v"));
        else if (op == "dEnds") r["r"] = json::array({x.d[i]->getFront().v(), x.d[i]->getBack().v()});
        else if (op == "dClear") x.d[i]->clear();
        else if (op == "dAssign") *x.d[i] = *x.d[in("j")-1];
        else if (op == "dCopy") x.d[i].reset(new DQ(*x.d[1-i]));
        else if (op == "tPush") x.t[i]->push(E(in("v")));
        else if (op == "tFill") { for (int k=1;k<=in("n");k++) x.t[i]->push(E(1+(in("v")+k)%9)); }
        else if (op == "tPop") r["r"] = x.t[i]->pop().v();
        else if (op == "tTop") r["r"] = x.t[i]->top().v();
        else if (op == "tClear") x.t[i]->clear();
        else if (op == "tCopy") x.t[i].reset(new ST(*x.t[1-i]));
        else if (op == "lInsert") x.l[i]->insert(E(in("v")));
        else if (op == "lReset") x.l[i]->reset();
        else { r["e"] = "unknown op"; }
        json ob;
        if (c == "m") { for (int k=0;k<2;k++) { json s = json::array(); int n=0; for (auto it=x.m[k]->begin(); it!=x.m[k]->end() && n<100000; ++it,++n) s.push_back(json::array({it->first.v(), it->second.v()})); ob[k?"s_2":"s_1"] = s; }
            ob["n"] = json::array({(int)x.m[0]->size(), (int)x.m[1]->size()}); ob["eq"] = (*x.m[0] == *x.m[1]); if ((*x.m[1] == *x.m[0]) != ob["eq"].get<bool>() || (*x.m[0] != *x.m[1]) == ob["eq"].get<bool>()) err = "equality is inconsistent"; }
        else if (c == "s") { for (int k=0;k<2;k++) { json s = json::array(); int n=0; for (auto it=x.s[k]->begin(); it!=x.s[k]->end() && n<100000; ++it,++n) s.push_back((*it).v()); ob[k?"s_2":"s_1"] = s; }
            ob["n"] = json::array({(int)x.s[0]->size(), (int)x.s[1]->size()}); ob["eq"] = (*x.s[0] == *x.s[1]); if ((*x.s[1] == *x.s[0]) != ob["eq"].get<bool>() || (*x.s[0] != *x.s[1]) == ob["eq"].get<bool>()) err = "equality is inconsistent"; }
        else if (c == "a") { ob = seqObs(x.a); ob["n"] = json::array({(int)x.a[0]->size(), (int)x.a[1]->size()}); ob["eq"] = (*x.a[0] == *x.a[1]); if ((*x.a[0] != *x.a[1]) == ob["eq"].get<bool>()) err = "equality is inconsistent"; }
        else if (c == "d") { ob = seqObs(x.d); ob["n"] = json::array({(int)x.d[0]->size(), (int)x.d[1]->size()}); ob["eq"] = (*x.d[0] == *x.d[1]); if ((*x.d[0] != *x.d[1]) == ob["eq"].get<bool>()) err = "equality is inconsistent"; }
        else if (c == "t") { ob = seqObs(x.t); ob["n"] = json::array({(int)x.t[0]->size(), (int)x.t[1]->size()}); ob["eq"] = ob["q"][0] == ob["q"][1]; }
        else { ob = seqObs(x.l); ob["eq"] = ob["q"][0] == ob["q"][1]; }
        ob["live"] = live;
        r["o"] = ob; if (!err.empty()) r["e"] = err;
        out.push_back(r);
    }
    err.clear();
    for (int i=0;i<2;i++) { x.m[i].reset(); x.s[i].reset(); x.a[i].reset(); x.d[i].reset(); x.t[i].reset(); x.l[i].reset(); }
    if (!x.al.m.empty()) err = "memory is not released";
    }
    if (live != 0) err = "elements are not destroyed";
    if (!err.empty() && !out.empty()) out.back()["e"] = "at destruction: " + err;
    return out;
}
int main(int argc, char** argv) { return driverMain(argc, argv, run); }
