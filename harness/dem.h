// Detector error models as plain structures, their text, and a reference reading of them.
#ifndef VERIF_DEM_H
#define VERIF_DEM_H
#include <cmath>
#include <map>
#include <set>

#include "graphs.h"
namespace vx {
struct Comp {
    std::vector<int> dets, obs;
};
struct Err {
    double p;
    std::vector<Comp> comps;
};
using EdgeKey = std::pair<int, int>;  // (lo, hi); boundary: (d, -1)
inline EdgeKey key_of(const Comp& c) {
    if (c.dets.size() == 1) return {c.dets[0], -1};
    return {std::min(c.dets[0], c.dets[1]), std::max(c.dets[0], c.dets[1])};
}
inline std::string err_text(const Err& e) {
    std::string s = fmt("error(%.17g)", e.p);
    for (size_t k = 0; k < e.comps.size(); k++) {
        if (k) s += " ^";
        for (auto d : e.comps[k].dets) s += fmt(" D%d", d);
        for (auto d : e.comps[k].obs) s += fmt(" L%d", d);
    }
    return s;
}
inline double pxor(double p, double q) { return p * (1 - q) + q * (1 - p); }
inline double llr(double p) { return std::log((1 - p) / p); }
struct RefEdge {
    double p = 0;
    std::set<int> obs;
    std::map<EdgeKey, double> implied;  // weight of the other edge given this one
};
struct RefModel {
    bool rejected = false;
    std::map<EdgeKey, RefEdge> edges;
};
inline RefModel reference(const std::vector<Err>& errs, bool corr) {
    RefModel r;
    std::map<EdgeKey, std::map<EdgeKey, double>> joint;
    for (auto& e : errs) {
        if (corr) {
            if (e.p > 0.5) r.rejected = true;
            if (e.p == 0) continue;
            bool none = e.comps.size() == 1 && e.comps[0].dets.empty();
            for (auto& c : e.comps) {
                if (c.dets.size() > 2) r.rejected = true;
                if (c.dets.empty() && e.comps.size() > 1) r.rejected = true;
            }
            if (none || r.rejected) continue;
        }
        if (!(e.p > 0)) continue;
        for (auto& c : e.comps) {
            if (c.dets.size() != 1 && c.dets.size() != 2) continue;
            auto k = key_of(c);
            auto it = r.edges.find(k);
            if (it == r.edges.end()) {
                r.edges[k].p = e.p;
                r.edges[k].obs = std::set<int>(c.obs.begin(), c.obs.end());
            } else {
                it->second.p = pxor(it->second.p, e.p);
            }
        }
        if (corr)
            for (size_t a = 0; a < e.comps.size(); a++)
                for (size_t b = 0; b < e.comps.size(); b++)
                    if (a != b && key_of(e.comps[a]) != key_of(e.comps[b])) {
                        double& j = joint[key_of(e.comps[a])][key_of(e.comps[b])];
                        j = pxor(j, e.p);
                    }
    }
    if (r.rejected) {
        r.edges.clear();
        return r;
    }
    for (auto& a : joint)
        for (auto& b : a.second) {
            double q = std::min(0.5, b.second / r.edges[a.first].p);
            r.edges[a.first].implied[b.first] = llr(q);
        }
    return r;
}
}  // namespace vx
#endif
