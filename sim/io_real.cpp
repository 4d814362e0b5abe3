#include "io.hpp"
Obj *make_d(int t, int k, size_t r, size_t c, uint64_t s, int st) { return new ObjT<double>(t, k, r, c, s, st); }
Obj *make_f(int t, int k, size_t r, size_t c, uint64_t s, int st) { return new ObjT<float>(t, k, r, c, s, st); }

// State space models and ranges, which can only be printed.
struct PrintOnly : Obj {
    void save(std::ofstream &) const override {}
    void load(std::ifstream &) override {}
    size_t rows() const override { return 0; }
    size_t cols() const override { return 0; }
    size_t elements() const override { return 0; }
    uint64_t parent_digest() const override { return digest(); }
    uint64_t rounded(const std::ios &) const override { return 0; }
    std::string record(const std::ios &) const override { return ""; }
    std::string dump(const char *) const override { return ""; }
    std::string matlab(const char *) const override { return ""; }
    std::string dump_model(const char *) const override { return ""; }
    std::string matlab_model(const char *) const override { return ""; }
    void check(const char *) const override {}
    void use(uint64_t) override {}
    void randomise(uint64_t) override {}
    RefRecord reference(const std::string &, size_t) const override { return RefRecord(); }
};
struct ModelObj : PrintOnly {
    bool discrete;
    ObjT<double> *part[4];
    malg::control::StateSpace<double> *ss;
    malg::control::DiscreteStateSpace<double> *ds;
    double ts;
    ModelObj(uint64_t seed, bool d) : discrete(d)
    {
        Rng g(seed);
        size_t n = 1 + g.below(3), q = 1 + g.below(2), p = 1 + g.below(2);
        int st = g.chance(1, 4);
        part[0] = new ObjT<double>(E_DOUBLE, O_MATRIX, n, n, g.next(), st);
        part[1] = new ObjT<double>(E_DOUBLE, O_MATRIX, n, q, g.next(), st);
        part[2] = new ObjT<double>(E_DOUBLE, O_MATRIX, p, n, g.next(), st);
        part[3] = new ObjT<double>(E_DOUBLE, O_MATRIX, p, q, g.next(), st);
        ts = static_cast<double>(1 + g.below(1000)) / 1000;
        rt::LibScope l;
        ss = new malg::control::StateSpace<double>(*part[0]->m, *part[1]->m, *part[2]->m, *part[3]->m);
        ds = new malg::control::DiscreteStateSpace<double>(*part[0]->m, *part[1]->m, *part[2]->m, *part[3]->m, ts);
    }
    ~ModelObj() override
    {
        for (auto *x : part) delete x;
        rt::LibScope l;
        delete ss;
        delete ds;
    }
    void print(std::ostream &f) const override
    {
        rt::LibScope l;
        if (discrete) malg::operator<<(f, *ds);
        else malg::operator<<(f, *ss);
    }
    uint64_t digest() const override
    {
        uint64_t h = bits(ds->sample_time);
        const malg::Matrix<double> *all[] = { &ss->A, &ss->B, &ss->C, &ss->D, &ds->A, &ds->B, &ds->C, &ds->D };
        for (auto *x : all) {
            h = mix(h, x->rows());
            h = mix(h, x->cols());
            for (size_t i = 0; i < x->size(); ++i) h = mix(h, bits(x->data()[i]));
        }
        return h;
    }
    std::string text(const std::ios &fmt) const override
    {
        std::string o;
        const char *n[] = { "A", "B", "C", "D" };
        for (int i = 0; i < 4; ++i) o += std::string(n[i]) + " =\n" + part[i]->text(fmt) + "\n";
        if (discrete) return o + "Sample time: " + elem_text(ts, fmt) + " seconds\nDiscrete-time state-space model.\n";
        return o + "Continuous-time state-space model.\n";
    }
};
struct RangeObj : PrintOnly {
    malg::Range r;
    RangeObj(uint64_t seed) : r{ mix(seed, 1) % 1000, mix(seed, 2) % 100000 } {}
    void print(std::ostream &f) const override
    {
        rt::LibScope l;
        f << r;
    }
    uint64_t digest() const override { return mix(r.start, r.stop); }
    std::string text(const std::ios &fmt) const override { return "[" + elem_text(static_cast<size_t>(r.start), fmt) + ", " + elem_text(static_cast<size_t>(r.stop), fmt) + "]"; }
};
Obj *make_model(uint64_t seed, bool discrete) { return new ModelObj(seed, discrete); }
Obj *make_range(uint64_t seed) { return new RangeObj(seed); }
