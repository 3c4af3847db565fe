// Conformance driver: executes scripted scenarios on the real simulator and
// prints the projected abstract state as one JSON object per line.
//
// Usage: driver SCRIPT [only_id]
//
// The script is a sequence of lines. `new ID` opens a scenario; every scenario
// runs in a forked child so that a crash or a hang of the code under test is
// confined to it and reported as {"id":ID,"crash":...}.
// Heights in the script and in the output are integers: multiples of the cell
// height. Only the public (unit-tested) interface of the library is used.
#include <glog/logging.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "soil_simulator/soil_dynamics.hpp"
#include "soil_simulator/types.hpp"
#include "soil_simulator/body_pos.hpp"
#include "soil_simulator/body_soil.hpp"
#include "soil_simulator/intersecting_cells.hpp"
#include "soil_simulator/relax.hpp"
#include "soil_simulator/utils.hpp"

namespace ss = soil_simulator;
std::mt19937 soil_simulator::rng;

static int g_warn = 0;
class Sink : public google::LogSink {
 public:
    void send(google::LogSeverity sev, const char*, const char*, int,
              const struct ::tm*, const char*, size_t) override {
        if (sev >= google::GLOG_WARNING) g_warn++;
    }
};

typedef std::vector<float> V;

struct Snap {
    ss::SimOut out;
    V pos, ori;
    std::mt19937 rng;
};

struct World {
    std::unique_ptr<Snap> saved;
    std::unique_ptr<ss::Grid> grid;
    std::unique_ptr<ss::SimOut> out;
    std::unique_ptr<ss::SimParam> par;
    std::unique_ptr<ss::Bucket> bucket;
    std::unique_ptr<ss::Blade> blade;
    float tol = 1e-5;
    float unit = 0.001;   // metres per fine unit (positions in the dumps)
    int dumpmode = 0;
    bool is_bucket() { return static_cast<bool>(bucket); }
    ss::Body* body() {
        if (bucket) return bucket.get();
        return blade.get();
    }
};

static int off_lattice = 0;
static double max_dev = 0;   // largest distance to the lattice, in cells
static int H(float v, float cz) {
    double q = static_cast<double>(v) / cz;
    if (!std::isfinite(q) || std::fabs(q) > 1e6) {
        off_lattice++;
        return 999999;
    }
    double r = std::round(q);
    if (std::fabs(q - r) > 0.1) off_lattice++;
    max_dev = std::max(max_dev, std::fabs(q - r));
    return static_cast<int>(r);
}
static long F(double v, double unit) {
    double q = v / unit;
    if (!std::isfinite(q) || std::fabs(q) > 1e9) return 999999999;
    return std::lround(q);
}

static void area(std::ostream& o, const char* n, int a[2][2]) {
    o << ",\"" << n << "\":[" << a[0][0] << "," << a[0][1] << "," << a[1][0]
      << "," << a[1][1] << "]";
}

// Dump of the whole projected state.
static void Dump(std::ostream& o, const std::string& id, const std::string& tag,
                 World& w, const std::string& extra) {
    off_lattice = 0;
    max_dev = 0;
    auto& s = *w.out;
    float cz = w.grid->cell_size_z_;
    o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\"" << extra;
    o << ",\"t\":[";
    for (size_t i = 0; i < s.terrain_.size(); i++) {
        o << (i ? ",[" : "[");
        for (size_t j = 0; j < s.terrain_[i].size(); j++)
            o << (j ? "," : "") << H(s.terrain_[i][j], cz);
        o << "]";
    }
    o << "],\"w\":[";
    bool first = true;
    for (size_t i = 0; i < s.terrain_.size(); i++)
        for (size_t j = 0; j < s.terrain_[i].size(); j++)
            for (int k = 0; k < 4; k += 2) {
                float lo = s.body_[k][i][j], hi = s.body_[k+1][i][j];
                if (lo == 0.0 && hi == 0.0) continue;
                o << (first ? "" : ",") << "[" << i << "," << j << ","
                  << k / 2 + 1 << "," << H(lo, cz) << "," << H(hi, cz) << "]";
                first = false;
            }
    o << "],\"s\":[";
    first = true;
    for (size_t i = 0; i < s.terrain_.size(); i++)
        for (size_t j = 0; j < s.terrain_[i].size(); j++)
            for (int k = 0; k < 4; k += 2) {
                float lo = s.body_soil_[k][i][j], hi = s.body_soil_[k+1][i][j];
                if (lo == 0.0 && hi == 0.0) continue;
                int a = H(lo, cz), b = H(hi, cz);
                if (a == b) continue;   // zero thickness: no soil
                o << (first ? "" : ",") << "[" << i << "," << j << ","
                  << k / 2 + 1 << "," << a << "," << b << "]";
                first = false;
            }
    o << "],\"r\":[";
    first = true;
    for (auto& r : s.body_soil_pos_) {
        int h = H(r.h_soil, cz);
        if (h == 0) continue;
        o << (first ? "" : ",") << "[" << r.ii << "," << r.jj << ","
          << r.ind / 2 + 1 << "," << h << "," << F(r.x_b, w.unit) << ","
          << F(r.y_b, w.unit) << "," << F(r.z_b, w.unit) << "]";
        first = false;
    }
    o << "]";
    area(o, "ba", s.body_area_);
    area(o, "ra", s.relax_area_);
    area(o, "ia", s.impact_area_);
    o << ",\"eq\":" << (s.equilibrium_ ? "true" : "false");
    if (w.body()) {
        auto& b = *w.body();
        o << ",\"bp\":[" << F(b.pos_[0], w.unit) << "," << F(b.pos_[1], w.unit)
          << "," << F(b.pos_[2], w.unit) << "],\"bo\":[";
        for (int k = 0; k < 4; k++)
            o << (k ? "," : "") << F(b.ori_[k], 1e-4);
        o << "]";
    }
    o << ",\"warn\":" << g_warn << ",\"off\":" << off_lattice
      << ",\"dev\":" << std::lround(max_dev * 1e5) << "}\n";
}

static void P3(std::ostream& o, const V& v, double u) {
    o << "[" << F(v[0], u) << "," << F(v[1], u) << "," << F(v[2], u) << "]";
}

static unsigned long Hash(World& w) {
    // Exact (bitwise) fingerprint of everything observable.
    unsigned long h = 1469598103934665603UL;
    auto mix = [&](const void* p, size_t n) {
        auto c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211UL; }
    };
    auto mf = [&](float v) { if (v == 0.0f) v = 0.0f; mix(&v, sizeof v); };
    auto& s = *w.out;
    for (auto& a : s.terrain_) for (auto v : a) mf(v);
    for (auto& l : s.body_) for (auto& a : l) for (auto v : a) mf(v);
    for (auto& l : s.body_soil_) for (auto& a : l) for (auto v : a) mf(v);
    for (auto& r : s.body_soil_pos_) {
        mix(&r.ind, sizeof(int)); mix(&r.ii, sizeof(int));
        mix(&r.jj, sizeof(int));
        mf(r.x_b); mf(r.y_b); mf(r.z_b); mf(r.h_soil);
    }
    mix(s.body_area_, sizeof s.body_area_);
    mix(s.relax_area_, sizeof s.relax_area_);
    mix(s.impact_area_, sizeof s.impact_area_);
    char e = s.equilibrium_; mix(&e, 1);
    if (w.body()) {
        for (auto v : w.body()->pos_) mf(v);
        for (auto v : w.body()->ori_) mf(v);
    }
    return h;
}

// Fingerprint of the objects the simulator is only meant to read.
static unsigned long HashConfig(World& w) {
    unsigned long h = 1469598103934665603UL;
    auto mix = [&](const void* p, size_t n) {
        auto c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211UL; }
    };
    auto mf = [&](double v) { mix(&v, sizeof v); };
    auto& g = *w.grid;
    mf(g.half_length_x_); mf(g.half_length_y_); mf(g.half_length_z_);
    mf(g.cell_size_xy_); mf(g.cell_size_z_); mf(g.cell_area_);
    mf(g.cell_volume_);
    for (auto v : g.vect_x_) mf(v);
    for (auto v : g.vect_y_) mf(v);
    for (auto v : g.vect_z_) mf(v);
    if (w.par) {
        mf(w.par->repose_angle_); mf(w.par->max_iterations_);
        mf(w.par->cell_buffer_);
    }
    if (w.body()) {
        auto& b = *w.body();
        for (auto* v : {&b.j_pos_init_, &b.b_pos_init_, &b.t_pos_init_})
            for (auto x : *v) mf(x);
        mf(b.width_);
    }
    return h;
}

static void HashOut(std::ostream& o, unsigned long h) {
    // split in words that fit TLC integers
    o << "[" << (h & 0xffffff) << "," << ((h >> 24) & 0xffffff) << ","
      << (h >> 48) << "]";
}

// Files of ./results; the content of those not seen before in this scenario.
static void Listing(std::ostream& o, std::map<std::string, unsigned long>* seen,
                    double unit) {
    std::vector<std::string> names;
    for (auto& e : std::filesystem::directory_iterator("results"))
        names.push_back(e.path().filename().string());
    std::sort(names.begin(), names.end());
    o << "[";
    bool first = true;
    for (auto& n : names) {
        std::ifstream f("results/" + n, std::ios::binary);
        std::string text((std::istreambuf_iterator<char>(f)),
                         std::istreambuf_iterator<char>());
        unsigned long h = 1469598103934665603UL;
        for (unsigned char c : text) { h ^= c; h *= 1099511628211UL; }
        o << (first ? "" : ",") << "{\"name\":\"" << n << "\",\"hash\":";
        first = false;
        HashOut(o, h);
        if (!seen->count(n) || (*seen)[n] != h) {
            (*seen)[n] = h;
            std::istringstream in(text);
            std::string line;
            std::getline(in, line);
            std::string head;
            for (char c : line)
                if (isalnum(c) || c == ',' || c == ' ' || c == '.' || c == '-')
                    head += c;
            bool bad = !text.empty() && text.back() != '\n';
            o << ",\"head\":\"" << head << "\",\"rows\":[";
            bool f1 = true;
            while (std::getline(in, line)) {
                double x, y, z;
                char rest;
                if (sscanf(line.c_str(), "%lf,%lf,%lf%c", &x, &y, &z, &rest)
                    != 3) { bad = true; continue; }
                o << (f1 ? "" : ",") << "[" << F(x, unit) << "," << F(y, unit)
                  << "," << F(z, unit) << "]";
                f1 = false;
            }
            o << "],\"malformed\":" << (bad ? "true" : "false");
        }
        o << "}";
    }
    o << "]";
}

static V rv(std::istream& in, int n) {
    V v(n);
    for (auto& x : v) in >> x;
    return v;
}

static void Cells(std::ostream& o, std::vector<std::vector<int>> p) {
    o << "[";
    for (size_t i = 0; i < p.size(); i++)
        o << (i ? "," : "") << "[" << p[i][0] << "," << p[i][1] << ","
          << p[i][2] << "]";
    o << "]";
}

static void RunScenario(const std::string& id,
                        const std::vector<std::string>& lines,
                        std::ostream& o) {
    std::map<int, World> worlds;
    std::map<std::string, unsigned long> seen;
    std::vector<int> perm;
    ss::SoilDynamics sim;
    int current = 0;
    for (auto& line : lines) {
        World& w = worlds[current];
        std::istringstream in(line);
        std::string c;
        in >> c;
        if (c == "world") {            // several independent worlds
            in >> current;
        } else if (c == "save") {      // snapshot: world, tool pose, generator
            w.saved.reset(new Snap{*w.out, w.body()->pos_, w.body()->ori_,
                                   ss::rng});
        } else if (c == "load") {
            *w.out = w.saved->out;
            w.body()->pos_ = w.saved->pos;
            w.body()->ori_ = w.saved->ori;
            ss::rng = w.saved->rng;
        } else if (c == "reload") {    // the generator goes on
            *w.out = w.saved->out;
            w.body()->pos_ = w.saved->pos;
            w.body()->ori_ = w.saved->ori;
        } else if (c == "grid") {
            V g = rv(in, 5);
            w.grid.reset(new ss::Grid(g[0], g[1], g[2], g[3], g[4]));
            w.out.reset(new ss::SimOut(*w.grid));
        } else if (c == "param") {
            float a; int m, b; in >> a >> m >> b;
            w.par.reset(new ss::SimParam(a, m, b));
        } else if (c == "body") {
            std::string k; in >> k;
            V a = rv(in, 3), b = rv(in, 3), d = rv(in, 3), e = rv(in, 3);
            float wd; in >> wd;
            if (k == "bucket") w.bucket.reset(new ss::Bucket(a, b, d, e, wd));
            else w.blade.reset(new ss::Blade(a, b, d, e, wd));
        } else if (c == "tol") { in >> w.tol;
        } else if (c == "unit") { in >> w.unit;
        } else if (c == "seed") { unsigned s; in >> s; ss::rng.seed(s);
        } else if (c == "tfill") {
            int h; in >> h;
            for (auto& a : w.out->terrain_)
                for (auto& v : a) v = w.grid->cell_size_z_ * h;
        } else if (c == "t") {
            int i, j, h; in >> i >> j >> h;
            w.out->terrain_[i][j] = w.grid->cell_size_z_ * h;
        } else if (c == "tall") {   // all terrain, row by row
            for (auto& a : w.out->terrain_)
                for (auto& v : a) {
                    int h; in >> h;
                    v = w.grid->cell_size_z_ * h;
                }
        } else if (c == "w" || c == "s") {
            int i, j, k, lo, hi; in >> i >> j >> k >> lo >> hi;
            auto& b = c == "w" ? w.out->body_ : w.out->body_soil_;
            b[2*(k-1)][i][j] = w.grid->cell_size_z_ * lo;
            b[2*(k-1)+1][i][j] = w.grid->cell_size_z_ * hi;
        } else if (c == "r") {
            int i, j, k; float h, x, y, z;
            in >> i >> j >> k >> h >> x >> y >> z;
            w.out->body_soil_pos_.push_back(ss::body_soil
                {2*(k-1), i, j, x, y, z, w.grid->cell_size_z_ * h});
        } else if (c == "traw" || c == "wraw" || c == "sraw") {  // raw floats
            int i, j, k = 0; in >> i >> j;
            if (c == "traw") { in >> w.out->terrain_[i][j]; continue; }
            float lo, hi; in >> k >> lo >> hi;
            auto& b = c == "wraw" ? w.out->body_ : w.out->body_soil_;
            b[2*(k-1)][i][j] = lo;
            b[2*(k-1)+1][i][j] = hi;
        } else if (c == "rraw") {
            int i, j, k; float h; in >> i >> j >> k >> h;
            w.out->body_soil_pos_.push_back(ss::body_soil
                {2*(k-1), i, j, 0, 0, 0, h});
        } else if (c == "jitter") {    // floating-point noise on all heights
            float a; unsigned n; in >> a >> n;
            std::mt19937 g(n);
            std::uniform_real_distribution<float> d(-a, a);
            auto& u = *w.out;
            for (auto& r : u.terrain_) for (auto& v : r) v += d(g);
            for (size_t i = 0; i < u.terrain_.size(); i++)
                for (size_t j = 0; j < u.terrain_[0].size(); j++)
                    for (int k = 0; k < 4; k += 2) {
                        auto& lo = u.body_[k][i][j];
                        auto& hi = u.body_[k+1][i][j];
                        auto& sl = u.body_soil_[k][i][j];
                        auto& sh = u.body_soil_[k+1][i][j];
                        bool rest = sl == hi;
                        if (lo != 0) lo += d(g);
                        if (hi != 0) hi += d(g);
                        if (sl == 0 && sh == 0) continue;
                        if (rest) sl = hi; else if (sl != 0) sl += d(g);
                        sh += d(g);
                    }
            for (auto& r : u.body_soil_pos_) if (r.h_soil > 0) r.h_soil += d(g);
        } else if (c == "area") {
            std::string n; int a, b, d, e; in >> n >> a >> b >> d >> e;
            auto& x = n == "ba" ? w.out->body_area_ :
                n == "ra" ? w.out->relax_area_ : w.out->impact_area_;
            x[0][0] = a; x[0][1] = b; x[1][0] = d; x[1][1] = e;
        } else if (c == "widen") {     // impact area := body area + relax area
            auto& u = *w.out;
            for (int a = 0; a < 2; a++) {
                u.impact_area_[a][0] = std::min(u.body_area_[a][0],
                                                u.relax_area_[a][0]);
                u.impact_area_[a][1] = std::max(u.body_area_[a][1],
                                                u.relax_area_[a][1]);
            }
        } else if (c == "eq") { int e; in >> e; w.out->equilibrium_ = e;
        } else if (c == "pose") {
            w.body()->pos_ = rv(in, 3); w.body()->ori_ = rv(in, 4);
        } else if (c == "init") {
            float a; in >> a;
            sim.Init(w.out.get(), *w.grid, a);
        } else if (c == "dump") {
            std::string tag; in >> tag;
            Dump(o, id, tag, w, "");
        } else if (c == "hash") {
            std::string tag; in >> tag;
            unsigned long h = Hash(w);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"hash\":";
            HashOut(o, h);
            o << ",\"cfg\":";
            HashOut(o, HashConfig(w));
            o << "}\n";
        } else if (c == "step") {
            std::string tag; int mi; in >> tag >> mi;
            V p = rv(in, 3), q = rv(in, 4);
            auto par = *w.par;
            if (mi >= 0) par.max_iterations_ = mi;
            g_warn = 0;
            bool r = w.is_bucket() ?
                sim.Step(w.out.get(), p, q, *w.grid, w.bucket.get(), par, w.tol)
                : sim.Step(w.out.get(), p, q, *w.grid, w.blade.get(), par,
                           w.tol);
            if (tag != "-")
                Dump(o, id, tag, w,
                     std::string(",\"ret\":") + (r ? "true" : "false"));
        } else if (c == "calcbodypos") {
            std::string tag; in >> tag;
            V p = rv(in, 3), q = rv(in, 4);
            g_warn = 0;
            if (w.is_bucket())
                ss::CalcBodyPos(w.out.get(), p, q, *w.grid, w.bucket.get(),
                                *w.par, w.tol);
            else
                ss::CalcBodyPos(w.out.get(), p, q, *w.grid, w.blade.get(),
                                *w.par, w.tol);
            if (tag != "-") Dump(o, id, tag, w, "");
        } else if (c == "updatebodysoil") {
            std::string tag; in >> tag;
            V p = rv(in, 3), q = rv(in, 4);
            g_warn = 0;
            ss::UpdateBodySoil(w.out.get(), p, q, *w.grid, w.body(), w.tol);
            Dump(o, id, tag, w, "");
        } else if (c == "movebs" || c == "movebody" || c == "moveall" ||
                   c == "relaxt" || c == "relaxb") {
            std::string tag; in >> tag;
            g_warn = 0;
            if (c == "movebs")
                ss::MoveIntersectingBodySoil(w.out.get(), *w.grid, w.body(),
                                             w.tol);
            else if (c == "movebody")
                ss::MoveIntersectingBody(w.out.get(), w.tol);
            else if (c == "moveall")
                ss::MoveIntersectingCells(w.out.get(), *w.grid, w.body(),
                                          w.tol);
            else if (c == "relaxt")
                ss::RelaxTerrain(w.out.get(), *w.grid, w.body(), *w.par, w.tol);
            else
                ss::RelaxBodySoil(w.out.get(), *w.grid, w.body(), *w.par,
                                  w.tol);
            if (tag != "-") Dump(o, id, tag, w, "");
        } else if (c == "include") {   // wall interval insertion
            int i, j, lo, hi; in >> i >> j >> lo >> hi;
            ss::IncludeNewBodyPos(w.out.get(), i, j,
                w.grid->cell_size_z_ * lo, w.grid->cell_size_z_ * hi, w.tol);
        } else if (c == "updatebody") {
            int n; in >> n;
            std::vector<std::vector<int>> a(n, std::vector<int>(3));
            for (auto& x : a) in >> x[0] >> x[1] >> x[2];
            ss::UpdateBody(a, w.out.get(), *w.grid, w.tol);
        } else if (c == "checkmove") {
            std::string tag; in >> tag;
            V p = rv(in, 3), q = rv(in, 4);
            g_warn = 0;
            unsigned long h0 = Hash(w);
            bool r = ss::CheckBodyMovement(p, q, *w.grid, w.body());
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"ret\":"
              << (r ? "true" : "false") << ",\"warn\":" << g_warn
              << ",\"same\":" << (Hash(w) == h0 ? "true" : "false") << "}\n";
        } else if (c == "checkvolume") {
            std::string tag; int n; in >> tag >> n;
            g_warn = 0;
            unsigned long h0 = Hash(w);
            bool r = ss::CheckVolume(w.out.get(), n, *w.grid, w.tol);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"ret\":"
              << (r ? "true" : "false") << ",\"warn\":" << g_warn
              << ",\"same\":" << (Hash(w) == h0 ? "true" : "false") << "}\n";
        } else if (c == "checksoil") {
            std::string tag; in >> tag;
            g_warn = 0;
            unsigned long h0 = Hash(w);
            bool r = ss::CheckSoil(w.out.get(), w.tol);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"ret\":"
              << (r ? "true" : "false") << ",\"warn\":" << g_warn
              << ",\"same\":" << (Hash(w) == h0 ? "true" : "false") << "}\n";
        } else if (c == "check") {     // SoilDynamics::Check, observed by logs
            std::string tag; int n; in >> tag >> n;
            g_warn = 0;
            unsigned long h0 = Hash(w);
            sim.Check(w.out.get(), n, *w.grid, w.tol);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"warn\":"
              << g_warn << ",\"same\":" << (Hash(w) == h0 ? "true" : "false")
              << "}\n";
        } else if (c == "rect" || c == "tri") {
            std::string tag; in >> tag;
            V a = rv(in, 3), b = rv(in, 3), d = rv(in, 3), e;
            if (c == "rect") e = rv(in, 3);
            auto p = c == "rect" ?
                ss::CalcRectanglePos(a, b, d, e, *w.grid, w.tol) :
                ss::CalcTrianglePos(a, b, d, *w.grid, w.tol);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"cells\":";
            Cells(o, p);
            o << "}\n";
        } else if (c == "line") {
            std::string tag; in >> tag;
            V a = rv(in, 3), b = rv(in, 3);
            auto p = ss::CalcLinePos(a, b, *w.grid);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"cells\":";
            Cells(o, p);
            o << "}\n";
        } else if (c == "corners") {
            std::string tag; in >> tag;
            V p = rv(in, 3), q = rv(in, 4);
            auto [jr, jl, br, bl, tr, tl] =
                ss::CalcBodyCornerPos(p, q, w.body());
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"c\":[";
            const V* all[6] = {&jr, &jl, &br, &bl, &tr, &tl};
            for (int k = 0; k < 6; k++) {
                if (k) o << ",";
                P3(o, *all[k], w.unit);
            }
            o << "]}\n";
        } else if (c == "bodyframe") {
            std::string tag; int i, j; float z; in >> tag >> i >> j >> z;
            auto p = ss::CalcBodyFramePos(i, j, z, *w.grid, w.body());
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"p\":";
            P3(o, p, w.unit);
            o << "}\n";
        } else if (c == "rotate") {
            std::string tag; in >> tag;
            V q = rv(in, 4), p = rv(in, 3);
            auto r = ss::CalcRotationQuaternion(q, p);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"p\":";
            P3(o, r, w.unit);
            o << "}\n";
        } else if (c == "angle") {
            std::string tag; in >> tag;
            V a = rv(in, 3);
            auto q = ss::AngleToQuat(a);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"q\":[";
            for (int k = 0; k < 4; k++) o << (k ? "," : "") << F(q[k], 1e-5);
            o << "]}\n";
        } else if (c == "mulq") {
            std::string tag; in >> tag;
            V a = rv(in, 4), b = rv(in, 4);
            auto q = ss::MultiplyQuaternion(a, b);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"q\":[";
            for (int k = 0; k < 4; k++) o << (k ? "," : "") << F(q[k], w.unit);
            o << "]}\n";
        } else if (c == "normal") {
            std::string tag; in >> tag;
            V a = rv(in, 3), b = rv(in, 3), d = rv(in, 3);
            auto n = ss::CalcNormal(a, b, d);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"p\":";
            P3(o, n, w.unit);
            o << "}\n";
        } else if (c == "folder") {    // work in this folder from now on
            std::string d; in >> d;
            if (chdir(d.c_str())) _exit(96);
        } else if (c == "rmfile") {    // an output file is removed
            std::string f; in >> f;
            if (f.find('/') != std::string::npos) _exit(96);
            std::filesystem::path q = std::filesystem::current_path();
            if (!std::filesystem::exists(q / "scratch")) _exit(96);
            std::filesystem::remove(q / "results" / f);
            seen.erase(f);
        } else if (c == "ls") {
            std::string tag; in >> tag;
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"files\":";
            Listing(o, &seen, w.unit);
            o << "}\n";
        } else if (c == "shuffle") {   // the parcels, as between two passes
            auto& b = w.out->body_soil_pos_;
            for (int a = static_cast<int>(b.size()) - 1; a > 0; a--) {
                std::uniform_int_distribution<int> dist(0, a);
                std::swap(b[a], b[dist(ss::rng)]);
            }
        } else if (c == "perm") {      // the table Init draws from this seed
            std::string tag; unsigned s; in >> tag >> s;
            std::mt19937 gen(s);
            perm.resize(256);
            for (int a = 0; a < 256; a++) perm[a] = a;
            for (int a = 255; a > 0; a--) {
                std::uniform_int_distribution<int> dist(0, a);
                std::swap(perm[a], perm[dist(gen)]);
            }
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"perm\":[";
            for (int a = 0; a < 256; a++) o << (a ? "," : "") << perm[a];
            o << "]}\n";
        } else if (c == "noise") {     // noise TAG a b d: at (a/d, b/d), 1e-7
            std::string tag; int a, b, d; in >> tag >> a >> b >> d;
            float v = ss::simplex_noise(static_cast<float>(a) / d,
                                        static_cast<float>(b) / d, perm);
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"v\":"
              << F(v, 1e-7) << "}\n";
        } else if (c == "write") {
            // Output files go to soil_simulator/../results
            if (w.is_bucket()) sim.WriteOutputs(w.out.get(), *w.grid,
                                                w.bucket.get());
            else sim.WriteOutputs(w.out.get(), *w.grid, w.blade.get());
        } else if (c == "ctor") {
            // ctor TAG grid|bucket|blade|param args...
            std::string tag, k; in >> tag >> k;
            bool ok = true, inval = false;
            std::string extra;
            try {
                if (k == "grid") {
                    V g = rv(in, 5);
                    ss::Grid gr(g[0], g[1], g[2], g[3], g[4]);
                    ss::SimOut so(gr);
                    std::ostringstream e;
                    int hx = gr.half_length_x_, hy = gr.half_length_y_;
                    int hz = gr.half_length_z_;
                    double u = w.unit;
                    e << ",\"half\":[" << hx << "," << hy << "," << hz
                      << "],\"nx\":" << gr.vect_x_.size() << ",\"ny\":"
                      << gr.vect_y_.size() << ",\"nz\":" << gr.vect_z_.size()
                      << ",\"x0\":" << F(gr.vect_x_[0], u) << ",\"x1\":"
                      << F(gr.vect_x_.back(), u) << ",\"y0\":"
                      << F(gr.vect_y_[0], u) << ",\"y1\":"
                      << F(gr.vect_y_.back(), u) << ",\"z0\":"
                      << F(gr.vect_z_[0], u) << ",\"z1\":"
                      << F(gr.vect_z_.back(), u)
                      << ",\"xm\":" << F(gr.vect_x_[hx], u)
                      << ",\"ym\":" << F(gr.vect_y_[hy], u)
                      << ",\"zm\":" << F(gr.vect_z_[hz], u)
                      << ",\"cxy\":" << F(gr.cell_size_xy_, u)
                      << ",\"cz\":" << F(gr.cell_size_z_, u)
                      << ",\"area\":" << F(gr.cell_area_, u * u)
                      << ",\"vol\":" << F(gr.cell_volume_, u * u * u);
                    bool shape = so.terrain_.size() == gr.vect_x_.size() &&
                        so.body_.size() == 4 && so.body_soil_.size() == 4 &&
                        so.body_soil_pos_.empty() && !so.equilibrium_;
                    bool zero = true;
                    for (auto& a : so.terrain_) {
                        shape = shape && a.size() == gr.vect_y_.size();
                        for (auto v : a) zero = zero && v == 0.0f;
                    }
                    for (auto* b : {&so.body_, &so.body_soil_})
                        for (auto& l : *b) {
                            shape = shape && l.size() == gr.vect_x_.size();
                            for (auto& a : l) {
                                shape = shape && a.size() == gr.vect_y_.size();
                                for (auto v : a) zero = zero && v == 0.0f;
                            }
                        }
                    e << ",\"shape\":" << (shape ? "true" : "false")
                      << ",\"zero\":" << (zero ? "true" : "false");
                    area(e, "ba", so.body_area_);
                    area(e, "ra", so.relax_area_);
                    area(e, "ia", so.impact_area_);
                    extra = e.str();
                } else if (k == "param") {
                    float a; int m, b; in >> a >> m >> b;
                    ss::SimParam p(a, m, b);
                    std::ostringstream e;
                    e << ",\"rep\":" << F(p.repose_angle_, 1e-4) << ",\"mi\":"
                      << p.max_iterations_ << ",\"cb\":" << p.cell_buffer_;
                    extra = e.str();
                } else {
                    int n[4]; V a[4];
                    for (int q = 0; q < 4; q++) {
                        in >> n[q];
                        a[q] = rv(in, n[q]);
                    }
                    float wd; in >> wd;
                    std::ostringstream e;
                    auto emit = [&](ss::Body& b) {
                        e << ",\"j\":"; P3(e, b.j_pos_init_, w.unit);
                        e << ",\"b\":"; P3(e, b.b_pos_init_, w.unit);
                        e << ",\"tt\":"; P3(e, b.t_pos_init_, w.unit);
                        e << ",\"width\":" << F(b.width_, w.unit);
                        e << ",\"p0\":"; P3(e, b.pos_, w.unit);
                    };
                    if (k == "bucket") {
                        ss::Bucket b(a[0], a[1], a[2], a[3], wd); emit(b);
                    } else {
                        ss::Blade b(a[0], a[1], a[2], a[3], wd); emit(b);
                    }
                    extra = e.str();
                }
            } catch (const std::invalid_argument&) {
                ok = false; inval = true;
            } catch (const std::exception&) {
                ok = false;
            }
            o << "{\"id\":" << id << ",\"tag\":\"" << tag << "\",\"ok\":"
              << (ok ? "true" : "false") << ",\"inval\":"
              << (inval ? "true" : "false") << extra << "}\n";
        } else if (!c.empty() && c[0] != '#') {
            std::cerr << "driver: unknown command " << c << "\n";
            _exit(97);
        }
    }
}

int main(int argc, char** argv) {
    if (argc < 2) return 2;
    google::InitGoogleLogging(argv[0]);
    FLAGS_logtostderr = 0;
    FLAGS_stderrthreshold = 4;
    FLAGS_minloglevel = 0;
    FLAGS_log_dir = "/nonexistent-dir-no-log-files";
    for (int s = 0; s < google::NUM_SEVERITIES; s++)
        google::SetLogDestination(s, "");
    Sink sink;
    google::AddLogSink(&sink);
    std::ifstream in(argv[1]);
    int secs = argc > 2 ? atoi(argv[2]) : 20;
    std::string line, id;
    std::vector<std::string> lines;
    auto flush = [&]() {
        if (id.empty()) return;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            alarm(secs);
            // Quiet abort messages of the code under test
            if (!freopen("/dev/null", "w", stderr)) {}
            std::ostringstream o;
            RunScenario(id, lines, o);
            std::string s = o.str();
            size_t k = 0;
            while (k < s.size()) {
                ssize_t r = write(1, s.data() + k, s.size() - k);
                if (r <= 0) _exit(98);
                k += r;
            }
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
            int v = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
            printf("{\"id\":%s,\"tag\":\"crash\",\"sig\":%d}\n", id.c_str(), v);
            fflush(stdout);
        }
    };
    while (std::getline(in, line)) {
        if (line.rfind("new ", 0) == 0) {
            flush();
            id = line.substr(4);
            lines.clear();
        } else {
            lines.push_back(line);
        }
    }
    flush();
    return 0;
}
