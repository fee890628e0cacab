// Common part of the drivers: reads behaviours (one JSON object per line: {"id":..,"ops":[..]}), runs them on the
// library and writes what was observed (one JSON object per line).
#pragma once
#include <reactphysics3d/reactphysics3d.h>
#include <nlohmann/json.hpp>
#include <fstream>
#include <iostream>
#include <cmath>
#include <map>
#include <memory>
#include <vector>
#include <string>
#include <functional>
#include <unistd.h>
#include <csignal>
using namespace reactphysics3d;
using json = nlohmann::json;

// Number observed in units of 1/scale: the nearest integer when it is within the tolerance, otherwise the raw value
inline json Q(double x, double scale = 4, double tol = 2e-3) {
    double y = x * scale;
    if (!std::isfinite(y)) return json("nonfinite");
    double r = std::round(y);
    if (std::fabs(y - r) <= tol * scale && std::fabs(r) < 2e9) return json((long long)r);
    return json(y);
}
// Length of the unit of the specification in metres (the lattice can be scaled: the answers must stay the same)
static double gUnit = 1;
inline json QV(const Vector3& v, double scale = 4, double tol = 2e-3, bool length = true) {
    if (length) scale /= gUnit;
    if (length) tol *= gUnit;
    return json::array({Q(v.x,scale,tol), Q(v.y,scale,tol), Q(v.z,scale,tol)});
}
inline Vector3 V4(const json& a) { double u = gUnit/4; return Vector3(decimal(a[0].get<double>()*u), decimal(a[1].get<double>()*u), decimal(a[2].get<double>()*u)); }
inline Vector3 V1(const json& a) { double u = gUnit; return Vector3(decimal(a[0].get<double>()*u), decimal(a[1].get<double>()*u), decimal(a[2].get<double>()*u)); }
// Quaternion of a rotation matrix given as rows (computed here and not by the library)
inline Quaternion QuatOf(const json& m, double scale = 1) {
    double r[3][3]; for (int i=0;i<3;i++) for (int j=0;j<3;j++) r[i][j] = m[i][j].get<double>()/scale;
    double t = r[0][0]+r[1][1]+r[2][2], x,y,z,w;
    if (t > 0.5) { double s = std::sqrt(t+1)*2; w = s/4; x=(r[2][1]-r[1][2])/s; y=(r[0][2]-r[2][0])/s; z=(r[1][0]-r[0][1])/s; }
    else {
        int i = 0; if (r[1][1] > r[i][i]) i = 1; if (r[2][2] > r[i][i]) i = 2;
        int j=(i+1)%3, k=(i+2)%3; double q[3];
        double s = std::sqrt(std::max(0.0, 1 + r[i][i]-r[j][j]-r[k][k]))*2;
        q[i]=s/4; q[j]=(r[j][i]+r[i][j])/s; q[k]=(r[k][i]+r[i][k])/s; w=(r[k][j]-r[j][k])/s; x=q[0];y=q[1];z=q[2];
    }
    return Quaternion(decimal(x),decimal(y),decimal(z),decimal(w));
}
// Rotation matrix of a quaternion, computed here and not by the library
inline json MatOf(const Quaternion& q, double scale = 1, double tol = 2e-3) {
    double x=q.x,y=q.y,z=q.z,w=q.w;
    double m[3][3] = {{1-2*(y*y+z*z),2*(x*y-z*w),2*(x*z+y*w)},{2*(x*y+z*w),1-2*(x*x+z*z),2*(y*z-x*w)},{2*(x*z-y*w),2*(y*z+x*w),1-2*(x*x+y*y)}};
    json a = json::array();
    for (int i=0;i<3;i++) { json r = json::array(); for (int j=0;j<3;j++) r.push_back(Q(m[i][j],scale,tol)); a.push_back(r); }
    return a;
}
inline int driverMain(int argc, char** argv, const std::function<json(const json&)>& run) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2], std::ios::app);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        json t = json::parse(line);
        alarm(t.value("limit", 20));       // a call that does not return is a failure of the behaviour that made it
        json r; r["id"] = t["id"]; json obs = run(t);
        if (t.value("last", false)) for (size_t i = 0; i + 1 < obs.size(); i++) obs[i] = nullptr;    // only the last call is compared
        r["obs"] = obs;
        out << r.dump() << "\n" << std::flush;
    }
    return 0;
}
