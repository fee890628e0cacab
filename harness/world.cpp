// Replays behaviours of spec/World.tla into the library through its public interface
#include "common.h"

struct Shapes {
    PhysicsCommon& pc;
    std::map<std::string, CollisionShape*> m;
    std::vector<std::unique_ptr<std::vector<float>>> fl;
    std::vector<std::unique_ptr<std::vector<int>>> in;
    explicit Shapes(PhysicsCommon& p) : pc(p) {}
    CollisionShape* make(const std::string& k) {
        if (k == "box") return pc.createBoxShape(decimal(gUnit)*Vector3(0.75,0.75,0.75));
        if (k == "bar") return pc.createBoxShape(decimal(gUnit)*Vector3(1.75,0.75,0.75));
        if (k == "sph") return pc.createSphereShape(gUnit*0.75);
        if (k == "cap") return pc.createCapsuleShape(gUnit*0.75, gUnit*2.0);
        std::vector<Message> msg;
        if (k == "hul" || k == "hsc" || k == "hof") {
            // half extents and centre of the vertices, scale of the shape
            Vector3 h = k == "hul" ? Vector3(.75f,.75f,1.75f) : k == "hsc" ? Vector3(.375f,.4375f,1.5f) : Vector3(.75f,.75f,.75f);
            Vector3 c = k == "hof" ? Vector3(0,1,0) : Vector3(0,0,0), sc = k == "hsc" ? Vector3(2,4,.5f) : Vector3(1,1,1);
            fl.emplace_back(new std::vector<float>());
            auto& v = *fl.back();
            for (int i=0;i<8;i++) { v.push_back(gUnit*(c.x + (i&1?h.x:-h.x))); v.push_back(gUnit*(c.y + (i&2?h.y:-h.y))); v.push_back(gUnit*(c.z + (i&4?h.z:-h.z))); }
            VertexArray va(v.data(), 3*sizeof(float), 8, VertexArray::DataType::VERTEX_FLOAT_TYPE);
            ConvexMesh* cm = pc.createConvexMesh(va, msg);
            if (!cm) return nullptr;
            return pc.createConvexMeshShape(cm, sc);
        }
        if (k == "pln" || k == "shl") {
            // rectangle [-7,7]x[-7,7] at height 2 (shl: another one at height -2), upward normal, split so that no lattice ray
            // meets an inner edge
            fl.emplace_back(new std::vector<float>()); in.emplace_back(new std::vector<int>());
            int n = k == "shl" ? 2 : 1;
            for (int j=0;j<n;j++) {
                float y = n == 1 || j == 1 ? 2 : -2;
                for (float f : {-7.f,y,-7.f, 2.f,y,-7.f, 7.f,y,-7.f, -7.f,y,7.f, 2.f,y,7.f, 7.f,y,7.f}) fl.back()->push_back(f / 4 * gUnit);
                for (int i : {0,4,1, 0,3,4, 1,5,2, 1,4,5}) in.back()->push_back(i + 6*j);
            }
            TriangleVertexArray tv(6*n, fl.back()->data(), 3*sizeof(float), 4*n, in.back()->data(), 3*sizeof(int),
                                   TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
            TriangleMesh* tm = pc.createTriangleMesh(tv, msg);
            if (!tm) return nullptr;
            return pc.createConcaveMeshShape(tm);
        }
        return nullptr;
    }
    CollisionShape* get(const std::string& k) { auto it = m.find(k); if (it != m.end()) return it->second; return m[k] = make(k); }
};

struct World : public EventListener {
    PhysicsCommon& pc; Shapes& sh;
    PhysicsWorld* w;
    std::map<int, RigidBody*> body; std::map<int, Collider*> col; std::map<int, Joint*> jnt;
    std::map<const void*, int> cid, bid;
    json ev = json::array(); int nC = 0, nT = 0; std::string err;
    int NB, NC;
    World(PhysicsCommon& p, Shapes& s, int nb, int nc) : pc(p), sh(s), NB(nb), NC(nc) {
        PhysicsWorld::WorldSettings st; st.gravity = Vector3(0,-8,0);
        w = pc.createPhysicsWorld(st); w->setEventListener(this);
    }
    ~World() { pc.destroyPhysicsWorld(w); }

    json pairOf(Collider* a, Collider* b, Body* ba, Body* bb) {
        int x = cid.count(a) ? cid[a] : -1, y = cid.count(b) ? cid[b] : -1;
        if (x < 0 || y < 0) { err = "unknown collider reported"; return json::array({x,y}); }
        if (a->getBody() != ba || b->getBody() != bb) err = "body of a reported collider is wrong";
        return x < y ? json::array({x,y}) : json::array({y,x});
    }
    void onContact(const CollisionCallback::CallbackData& d) override {
        nC++;
        for (uint32 i=0;i<d.getNbContactPairs();i++) {
            auto p = d.getContactPair(i);
            json q = pairOf(p.getCollider1(), p.getCollider2(), p.getBody1(), p.getBody2());
            auto t = p.getEventType();
            const char* n = t == CollisionCallback::ContactPair::EventType::ContactStart ? "start" :
                            t == CollisionCallback::ContactPair::EventType::ContactStay ? "stay" : "exit";
            bool ex = t == CollisionCallback::ContactPair::EventType::ContactExit;
            if ((p.getNbContactPoints() == 0) != ex) err = "number of contact points does not fit the event";
            ev.push_back(json::array({"c", n, q[0], q[1]}));
        }
    }
    void onTrigger(const OverlapCallback::CallbackData& d) override {
        nT++;
        for (uint32 i=0;i<d.getNbOverlappingPairs();i++) {
            auto p = d.getOverlappingPair(i);
            json q = pairOf(p.getCollider1(), p.getCollider2(), p.getBody1(), p.getBody2());
            auto t = p.getEventType();
            const char* n = t == OverlapCallback::OverlapPair::EventType::OverlapStart ? "start" :
                            t == OverlapCallback::OverlapPair::EventType::OverlapStay ? "stay" : "exit";
            ev.push_back(json::array({"t", n, q[0], q[1]}));
        }
    }
    struct OCb : public OverlapCallback { World* w; json r = json::array();
        void onOverlap(CallbackData& d) override { for (uint32 i=0;i<d.getNbOverlappingPairs();i++) { auto p = d.getOverlappingPair(i);
            r.push_back(w->pairOf(p.getCollider1(), p.getCollider2(), p.getBody1(), p.getBody2())); } } };
    struct CCb : public CollisionCallback { World* w; json r = json::array();
        void onContact(const CallbackData& d) override { for (uint32 i=0;i<d.getNbContactPairs();i++) { auto p = d.getContactPair(i);
            if (p.getNbContactPoints() == 0) w->err = "a collision query reports a pair without contact point";
            r.push_back(w->pairOf(p.getCollider1(), p.getCollider2(), p.getBody1(), p.getBody2())); } } };
    struct RCb : public RaycastCallback { World* w; std::string mode; int ign = 0; json hits = json::array(); double len; double last = 1.0;
        decimal notifyRaycastHit(const RaycastInfo& i) override {
            json h = w->hit(i, len);
            if (mode == "ignore" && h[0] == ign) return decimal(-1);
            if ((mode == "close" || mode == "ignore") && i.hitFraction > last + 1e-5) w->err = "a hit beyond the clipped ray is reported";
            hits.push_back(h);
            if (mode == "all") return decimal(1);
            if (mode == "stop") return decimal(0);
            last = i.hitFraction;
            return i.hitFraction; } };
    json hit(const RaycastInfo& i, double len) {
        int c = cid.count(i.collider) ? cid[i.collider] : -1;
        if (c > 0 && i.body != i.collider->getBody()) err = "raycast body is wrong";
        return json::array({c, Q(i.hitFraction*len, 1, 8e-3), QV(i.worldPoint), QV(i.worldNormal, 1, 2e-3, false)});
    }
    // the ray may end before its second point (maximum fraction)
    Ray ray(const json& o) {
        Vector3 a = V4(o["from"]); Vector3 d(0,0,0); d[o["ax"].get<int>()-1] = decimal(gUnit*o["sg"].get<int>()*o["len"].get<double>()/4);
        return Ray(a, a+d, decimal(1.0/o["hf"].get<int>()));
    }
    static Transform tr(const json& pos4, const json& m) { return Transform(V4(pos4), QuatOf(m)); }

    json obs() {
        json r;
        json bs = json::array(), cs = json::array();
        for (int b=1;b<=NB;b++) {
            if (!body.count(b)) { bs.push_back(json::array()); continue; }
            RigidBody* x = body[b];
            const char* t = x->getType() == BodyType::STATIC ? "S" : x->getType() == BodyType::KINEMATIC ? "K" : "D";
            if (NormSqOf(x->getAngularVelocity()) != 0) err = "angular velocity appeared";
            bs.push_back(json::array({x->isActive(), t, x->isSleeping(), x->isAllowedToSleep(), QV(x->getTransform().getPosition(),1), MatOf(x->getTransform().getOrientation()),
                                      QV(x->getLinearVelocity(),1), (int)x->getNbColliders()}));
        }
        for (int c=1;c<=NC;c++) {
            if (!col.count(c)) { cs.push_back(json::array()); continue; }
            Collider* x = col[c];
            AABB a = x->getWorldAABB();
            bool act = x->getBody()->isActive();
            if (!act) a = x->getCollisionShape()->computeTransformedAABB(x->getLocalToWorldTransform());
            cs.push_back(json::array({bid.count(x->getBody()) ? bid[x->getBody()] : -1, x->getIsSimulationCollider(), x->getIsTrigger(), x->getIsWorldQueryCollider(),
                                      x->getCollisionCategoryBits(), x->getCollideWithMaskBits(), QV(x->getLocalToBodyTransform().getPosition()),
                                      MatOf(x->getLocalToBodyTransform().getOrientation()), QV(a.getMin()), QV(a.getMax())}));
        }
        r["b"] = bs; r["c"] = cs; r["n"] = json::array({(int)w->getNbRigidBodies(), w->isSleepingEnabled()});
        return r;
    }
    static double NormSqOf(const Vector3& v) { return v.x*v.x+v.y*v.y+v.z*v.z; }

    json exec(const json& o) {
        std::string op = o["op"]; json res; err.clear();
        auto B = [&](const char* k = "b") { return body.at(o[k].get<int>()); };
        auto C = [&]() { return col.at(o["c"].get<int>()); };
        auto BV = [&]() { return o["v"].get<bool>(); };
        if (op == "createBody") {
            Vector3 p = V1(o["pos"]);
            RigidBody* x = w->createRigidBody(Transform(p, QuatOf(o["ori"])));
            // locked: contacts are detected and solved, but do not move the body
            x->setLinearLockAxisFactor(Vector3(0,0,0)); x->setAngularLockAxisFactor(Vector3(0,0,0));
            body[o["b"]] = x; bid[x] = o["b"];
        }
        else if (op == "destroyBody") { RigidBody* x = B(); int b = o["b"];
            std::vector<int> rm; for (auto& kv : col) if (kv.second->getBody() == x) rm.push_back(kv.first);
            for (int c : rm) { cid.erase(col[c]); col.erase(c); }
            rm.clear(); for (auto& kv : jnt) if (kv.second->getBody1() == x || kv.second->getBody2() == x) rm.push_back(kv.first);
            for (int j : rm) jnt.erase(j);
            bid.erase(x); body.erase(b); w->destroyRigidBody(x); }
        else if (op == "setActive") B()->setIsActive(BV());
        else if (op == "setType") { std::string t = o["t"]; B()->setType(t == "S" ? BodyType::STATIC : t == "K" ? BodyType::KINEMATIC : BodyType::DYNAMIC); }
        else if (op == "setTransform") B()->setTransform(Transform(V1(o["pos"]), QuatOf(o["ori"])));
        else if (op == "setVel") B()->setLinearVelocity(V1(o["v"]));
        else if (op == "setSleeping") B()->setIsSleeping(BV());
        else if (op == "setAllow") B()->setIsAllowedToSleep(BV());
        else if (op == "enableSleeping") w->enableSleeping(BV());
        else if (op == "setSleepCfg") { w->setTimeBeforeSleep(decimal(o["t"].get<int>()*0.5)); w->setSleepLinearVelocity(decimal(gUnit*(o["h"].get<int>() == 0 ? 0.02 : o["h"].get<int>()))); }
        else if (op == "addCollider") {
            CollisionShape* s = sh.get(o["k"]); if (!s) { res["e"] = "shape could not be created"; return res; }
            Collider* x = B()->addCollider(s, tr(o["off"], o["rot"]));
            x->setIsSimulationCollider(o["sim"]); if (o["trg"].get<bool>()) x->setIsTrigger(true);
            x->setIsWorldQueryCollider(o["wq"]); x->setCollisionCategoryBits(o["cat"].get<int>()); x->setCollideWithMaskBits(o["msk"].get<int>());
            col[o["c"]] = x; cid[x] = o["c"];
        }
        else if (op == "removeCollider") { Collider* x = C(); cid.erase(x); col.erase(o["c"].get<int>()); ((RigidBody*)x->getBody())->removeCollider(x); }
        else if (op == "setSim") C()->setIsSimulationCollider(BV());
        else if (op == "setTrig") C()->setIsTrigger(BV());
        else if (op == "setWQ") C()->setIsWorldQueryCollider(BV());
        else if (op == "setCat") C()->setCollisionCategoryBits(o["v"].get<int>());
        else if (op == "setMask") C()->setCollideWithMaskBits(o["v"].get<int>());
        else if (op == "setLocal") C()->setLocalToBodyTransform(tr(o["off"], o["rot"]));
        else if (op == "createJoint") {
            RigidBody *a = B("a"), *b = B("b"); std::string k = o["k"];
            Vector3 an = (a->getTransform().getPosition() + b->getTransform().getPosition()) * decimal(0.5);
            JointInfo* ji = nullptr;
            FixedJointInfo f(a,b,an); BallAndSocketJointInfo s(a,b,an); HingeJointInfo h(a,b,an,Vector3(0,1,0)); SliderJointInfo sl(a,b,an,Vector3(0,1,0));
            ji = k == "F" ? (JointInfo*)&f : k == "B" ? (JointInfo*)&s : k == "H" ? (JointInfo*)&h : (JointInfo*)&sl;
            ji->isCollisionEnabled = o["cl"];
            Joint* x = w->createJoint(*ji); jnt[o["j"]] = x;
            if (x->getBody1() != a || x->getBody2() != b || x->isCollisionEnabled() != o["cl"].get<bool>()) err = "joint attributes are wrong";
        }
        else if (op == "destroyJoint") { Joint* x = jnt.at(o["j"].get<int>()); jnt.erase(o["j"].get<int>()); w->destroyJoint(x); }
        else if (op == "update") { ev = json::array(); nC = nT = 0; w->update(decimal(o["dt"].get<int>()*0.5)); 
            if (nC > 1 || nT > 1) err = "more than one callback in one update"; }
        else if (op == "testOverlap2") res["r"] = w->testOverlap(B("a"), B("b"));
        else if (op == "testOverlap1") { OCb c; c.w = this; w->testOverlap(B("a"), c); res["s_r"] = c.r; }
        else if (op == "testOverlap0") { OCb c; c.w = this; w->testOverlap(c); res["s_r"] = c.r; }
        else if (op == "testCollision2") { CCb c; c.w = this; w->testCollision(B("a"), B("b"), c); res["s_r"] = c.r; }
        else if (op == "testCollision1") { CCb c; c.w = this; w->testCollision(B("a"), c); res["s_r"] = c.r; }
        else if (op == "testCollision0") { CCb c; c.w = this; w->testCollision(c); res["s_r"] = c.r; }
        else if (op == "ray") {
            RCb c; c.w = this; c.mode = o["mode"]; c.len = o["len"]; if (c.mode == "ignore") c.ign = o["ign"];
            w->raycast(ray(o), &c, o["mask"].get<int>());
            if (c.mode == "all") res["s_r"] = c.hits;
            else { if (c.mode == "stop" && c.hits.size() > 1) err = "a ray goes on after it was stopped";
                   res["one"] = c.hits.empty() ? json::array() : c.hits.back(); }
        }
        else if (op == "rayCol") { RaycastInfo i; bool h = C()->raycast(ray(o), i); res["r"] = h ? hit(i, o["len"]) : json::array(); }
        else if (op == "rayBody") { RaycastInfo i; bool h = B()->raycast(ray(o), i); res["one"] = h ? hit(i, o["len"]) : json::array(); }
        else if (op == "point") { json r = json::array(); Vector3 p = V4(o["p"]); RigidBody* b = B();
            for (auto& kv : col) if (kv.second->getBody() == b && kv.second->testPointInside(p)) r.push_back(kv.first);
            if (b->testPointInside(p) != !r.empty()) err = "point test of the body and of its colliders differ";
            res["s_r"] = r; }
        else if (op == "aabb") { json r = json::array(); AABB q(V4(o["lo"]), V4(o["hi"])); RigidBody* b = B();
            if (b->isActive()) { for (auto& kv : col) if (kv.second->getBody() == b && kv.second->testAABBOverlap(q)) r.push_back(kv.first); res["s_r"] = r; }
            else res["s_r"] = o["s_r"];
            AABB a = b->getAABB(); res["ab"] = json::array({QV(a.getMin()), QV(a.getMax())}); }
        else { res["e"] = "unknown op"; return res; }
        res["o"] = obs();
        if (op == "update") res["o"]["s_ev"] = ev;
        if (!err.empty()) res["e"] = err;
        return res;
    }
};

json runTrace(const json& t) {
    gUnit = t.value("unit", 1.0);
    PhysicsCommon pc; Shapes sh(pc);
    json out = json::array();
    int nw = t.value("nw", 1);
    std::vector<std::unique_ptr<World>> ws;
    for (int i=0;i<nw;i++) ws.emplace_back(new World(pc, sh, t["NB"], t["NC"]));
    for (const json& o : t["ops"]) out.push_back(ws[o.value("wi", 0)]->exec(o));
    ws.clear();
    return out;
}
int main(int argc, char** argv) { return driverMain(argc, argv, runTrace); }
