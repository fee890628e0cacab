// Replays behaviours of spec/Motion.tla into the library through its public interface
#include "common.h"
static double rat(const json& a) { return a[0].get<double>() / a[1].get<double>(); }
static Vector3 VR(const json& a) { return Vector3(decimal(rat(a[0])), decimal(rat(a[1])), decimal(rat(a[2]))); }
static json F(double x) { return std::isfinite(x) ? json(x) : json("nonfinite"); }
static json FV(const Vector3& v) { return json::array({F(v.x), F(v.y), F(v.z)}); }
static json IV(const Vector3& v) { return QV(v, 1); }

struct Run {
    PhysicsCommon pc; PhysicsWorld* w = nullptr; int NB, NC;
    std::map<int, RigidBody*> body; std::map<int, Collider*> col; std::map<int, std::string> kind;
    std::vector<float> fl, fl2; std::vector<int> in; ConvexMesh* cm = nullptr; TriangleMesh* tm = nullptr;
    Run(const json& t) : NB(t["NB"]), NC(t["NC"]) {
        PhysicsWorld::WorldSettings st; st.gravity = Vector3(0,-8,0);
        w = pc.createPhysicsWorld(st);
        w->enableSleeping(false);
        for (int i=0;i<8;i++) { fl.push_back(i&1?1:-1); fl.push_back(i&2?1:-1); fl.push_back(i&4?1:-1); }
        std::vector<Message> msg;
        VertexArray va(fl.data(), 3*sizeof(float), 8, VertexArray::DataType::VERTEX_FLOAT_TYPE);
        cm = pc.createConvexMesh(va, msg);
        in = {0,2,1, 1,2,3, 4,5,6, 5,7,6, 0,1,4, 1,5,4, 2,6,3, 3,6,7, 0,4,2, 2,4,6, 1,3,5, 3,7,5};
        TriangleVertexArray tv(8, fl.data(), 3*sizeof(float), 12, in.data(), 3*sizeof(int),
                               TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
        tm = pc.createTriangleMesh(tv, msg);
    }
    Vector3 home(int b) { return Vector3(decimal(100.0*b), 0, 0); }
    bool round(const std::string& k) { return k == "sph" || k == "cap"; }
    double fac(const std::string& k) { return round(k) ? 3.14159265358979 : 1.0; }
    CollisionShape* shape(const std::string& k, const json& d) {
        Vector3 v = V1(d);
        if (k == "box") return pc.createBoxShape(v);
        if (k == "sph") return pc.createSphereShape(v.x);
        if (k == "cap") return pc.createCapsuleShape(v.x, v.y);
        if (k == "hul") return pc.createConvexMeshShape(cm, v);
        return pc.createConcaveMeshShape(tm, v);
    }
    void free(const std::string& k, CollisionShape* s) {
        if (k == "box") pc.destroyBoxShape(static_cast<BoxShape*>(s));
        else if (k == "sph") pc.destroySphereShape(static_cast<SphereShape*>(s));
        else if (k == "cap") pc.destroyCapsuleShape(static_cast<CapsuleShape*>(s));
        else if (k == "hul") pc.destroyConvexMeshShape(static_cast<ConvexMeshShape*>(s));
        else pc.destroyConcaveMeshShape(static_cast<ConcaveMeshShape*>(s));
    }
    json obs() {
        json bs = json::array(), cs = json::array();
        for (int b=1;b<=NB;b++) {
            if (!body.count(b)) { bs.push_back(json::array()); continue; }
            RigidBody* x = body[b]; json o;
            const char* t = x->getType() == BodyType::STATIC ? "S" : x->getType() == BodyType::KINEMATIC ? "K" : "D";
            o["s"] = json::array({x->isActive(), t, x->isSleeping(), x->isGravityEnabled()});
            o["q_p"] = FV(x->getTransform().getPosition() - home(b)); o["ori"] = MatOf(x->getTransform().getOrientation(), 5, 1e-2);
            o["q_v"] = FV(x->getLinearVelocity()); o["q_w"] = FV(x->getAngularVelocity()); o["q_F"] = FV(x->getForce()); o["q_T"] = FV(x->getTorque());
            o["q_m"] = F(x->getMass()); o["q_I"] = FV(x->getLocalInertiaTensor()); o["q_cl"] = FV(x->getLocalCenterOfMass());
            o["q_d"] = json::array({F(x->getLinearDamping()), F(x->getAngularDamping())});
            o["ll"] = IV(x->getLinearLockAxisFactor()); o["al"] = IV(x->getAngularLockAxisFactor());
            bs.push_back(o);
        }
        for (int c=1;c<=NC;c++) {
            if (!col.count(c)) { cs.push_back(json::array()); continue; }
            Collider* x = col[c]; json o; int own = -1;
            for (auto& p : body) if (p.second == x->getBody()) own = p.first;
            Transform t = x->getLocalToWorldTransform();
            o["own"] = own; o["q_p"] = FV(t.getPosition() - home(own)); o["ori"] = MatOf(t.getOrientation(), 5, 1e-2);
            o["off"] = IV(x->getLocalToBodyTransform().getPosition()); o["rot"] = MatOf(x->getLocalToBodyTransform().getOrientation());
            cs.push_back(o);
        }
        return json{{"b",bs},{"c",cs},{"g",IV(w->getGravity())},{"ge",w->isGravityEnabled()}};
    }
    void dropCollider(int c, bool destroyed) {
        CollisionShape* s = col[c]->getCollisionShape();
        if (!destroyed) const_cast<Body*>(static_cast<const Body*>(col[c]->getBody()))->removeCollider(col[c]);
        free(kind[c], s); col.erase(c); kind.erase(c);
    }
    json step(const json& o) {
        json r; const std::string op = o["op"];
        RigidBody* x = o.contains("b") && body.count(o["b"].get<int>()) ? body[o["b"].get<int>()] : nullptr;
        Collider* c = o.contains("c") && col.count(o["c"].get<int>()) ? col[o["c"].get<int>()] : nullptr;
        if (op == "createBody") { int b = o["b"]; body[b] = w->createRigidBody(Transform(home(b)+V1(o["p"]), QuatOf(o["ori"], 5))); }
        else if (op == "destroyBody") {
            std::vector<std::pair<std::string,CollisionShape*>> ss;
            for (int k=1;k<=NC;k++) if (col.count(k) && col[k]->getBody() == x) { ss.push_back({kind[k], col[k]->getCollisionShape()}); col.erase(k); kind.erase(k); }
            w->destroyRigidBody(x); body.erase(o["b"].get<int>());
            for (auto& p : ss) free(p.first, p.second);
        }
        else if (op == "addCollider") {
            int k = o["c"]; kind[k] = o["k"];
            col[k] = x->addCollider(shape(kind[k], o["d"]), Transform(V1(o["off"]), QuatOf(o["rot"])));
            col[k]->getMaterial().setMassDensity(decimal(rat(o["rho"]) / fac(kind[k])));
        }
        else if (op == "removeCollider") dropCollider(o["c"], false);
        else if (op == "setLocal") c->setLocalToBodyTransform(Transform(V1(o["off"]), QuatOf(o["rot"])));
        else if (op == "setDensity") c->getMaterial().setMassDensity(decimal(rat(o["rho"]) / fac(o["k"])));
        else if (op == "resize") {
            const std::string k = o["k"]; Vector3 v = V1(o["d"]); CollisionShape* s = c->getCollisionShape();
            if (k == "box") static_cast<BoxShape*>(s)->setHalfExtents(v);
            else if (k == "sph") static_cast<SphereShape*>(s)->setRadius(v.x);
            else if (k == "cap") { static_cast<CapsuleShape*>(s)->setRadius(v.x); static_cast<CapsuleShape*>(s)->setHeight(v.y); }
            else if (k == "hul") static_cast<ConvexMeshShape*>(s)->setScale(v);
            else static_cast<ConcaveMeshShape*>(s)->setScale(v);
        }
        else if (op == "upCom") x->updateLocalCenterOfMassFromColliders();
        else if (op == "upInertia") x->updateLocalInertiaTensorFromColliders();
        else if (op == "upMass") x->updateMassFromColliders();
        else if (op == "upAll") x->updateMassPropertiesFromColliders();
        else if (op == "setMass") x->setMass(o["m"].get<decimal>());
        else if (op == "setInertia") x->setLocalInertiaTensor(V1(o["v"]));
        else if (op == "setCom") x->setLocalCenterOfMass(V1(o["v"]));
        else if (op == "setLL") x->setLinearLockAxisFactor(V1(o["v"]));
        else if (op == "setAL") x->setAngularLockAxisFactor(V1(o["v"]));
        else if (op == "setLD") x->setLinearDamping(o["n"].get<decimal>());
        else if (op == "setAD") x->setAngularDamping(o["n"].get<decimal>());
        else if (op == "bodyGravity") x->enableGravity(o["v"]);
        else if (op == "worldGravity") w->setIsGravityEnabled(o["v"]);
        else if (op == "setGravity") w->setGravity(V1(o["v"]));
        else if (op == "setVel") x->setLinearVelocity(V1(o["v"]));
        else if (op == "setAngVel") x->setAngularVelocity(V1(o["v"]));
        else if (op == "setTransform") x->setTransform(Transform(home(o["b"])+V1(o["p"]), QuatOf(o["ori"], 5)));
        else if (op == "setType") { std::string t = o["t"]; x->setType(t == "S" ? BodyType::STATIC : t == "K" ? BodyType::KINEMATIC : BodyType::DYNAMIC); }
        else if (op == "setSleeping") x->setIsSleeping(o["v"]);
        else if (op == "setActive") x->setIsActive(o["v"]);
        else if (op == "force") {
            Vector3 f = V1(o["f"]), p = V1(o["p"]); bool wf = o["wf"]; std::string md = o["md"];
            if (md == "w") p += home(o["b"]);
            if (md == "c") { if (wf) x->applyWorldForceAtCenterOfMass(f); else x->applyLocalForceAtCenterOfMass(f); }
            else if (md == "w") { if (wf) x->applyWorldForceAtWorldPosition(f, p); else x->applyLocalForceAtWorldPosition(f, p); }
            else { if (wf) x->applyWorldForceAtLocalPosition(f, p); else x->applyLocalForceAtLocalPosition(f, p); }
        }
        else if (op == "torque") { if (o["wf"].get<bool>()) x->applyWorldTorque(VR(o["q"])); else x->applyLocalTorque(VR(o["q"])); }
        else if (op == "resetForce") x->resetForce();
        else if (op == "resetTorque") x->resetTorque();
        else if (op == "update") w->update(decimal(0.5));
        else if (op == "conv") {
            Vector3 p = V1(o["p"]), h = home(o["b"]);
            r["r"] = json{{"q_wp", FV(x->getWorldPoint(p) - h)}, {"q_lp", FV(x->getLocalPoint(p + h))}, {"q_wv", FV(x->getWorldVector(p))}, {"q_lv", FV(x->getLocalVector(p))}};
            return r;
        }
        else if (op == "shape") {
            CollisionShape* s = c->getCollisionShape();
            r["r"] = json{{"q_v", F(s->getVolume() / fac(o["k"]))}, {"q_i", FV(s->getLocalInertiaTensor(o["m"].get<decimal>()))}};
            return r;
        }
        else r["e"] = "unknown call";
        r["o"] = obs();
        return r;
    }
};
int main(int argc, char** argv) {
    return driverMain(argc, argv, [](const json& t) {
        Run run(t); json out = json::array();
        for (const json& o : t["ops"]) out.push_back(run.step(o));
        return out;
    });
}
