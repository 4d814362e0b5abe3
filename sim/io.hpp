// Objects with file and text operators, independent of their element type.
#pragma once
#include "lib.hpp"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <limits>
#include <memory>
#include <sstream>

enum ElemType { E_DOUBLE, E_FLOAT, E_INT, E_LONG, E_UINT, E_CD, E_CF, E_TYPES };
enum Kind { O_VECTOR, O_MATRIX, O_VIEW, O_CVIEW, O_KINDS };

// ---------------------------------------------------------------- elements
template <class T>
struct is_cplx : std::false_type {};
template <class T>
struct is_cplx<std::complex<T>> : std::true_type {};

template <class T>
T gen_elem(Rng &g, int style)
{
    if constexpr (is_cplx<T>::value) {
        auto a = gen_elem<typename T::value_type>(g, style);
        auto b = gen_elem<typename T::value_type>(g, style);
        return T(a, b);
    } else if constexpr (std::is_integral_v<T>) {
        if (style == 0) return static_cast<T>(g.range(std::is_signed_v<T> ? -9 : 0, 9));
        switch (g.below(6)) {
        case 0: return std::numeric_limits<T>::max();
        case 1: return std::numeric_limits<T>::min();
        case 2: return 0;
        default: return static_cast<T>(g.next() >> g.below(64));
        }
    } else {
        if (style == 0) return static_cast<T>(g.range(-99, 99)) / static_cast<T>(g.chance(1, 2) ? 1 : 8);
        T big = std::is_same_v<T, float> ? static_cast<T>(1e37) : static_cast<T>(1e307);
        switch (g.below(9)) {
        case 0: return 0;
        case 1: return -static_cast<T>(0);
        case 2: return g.chance(1, 2) ? big : -big;
        case 3: return std::numeric_limits<T>::min();
        case 4: return std::numeric_limits<T>::denorm_min() * static_cast<T>(1 + g.below(1000));
        case 5: return static_cast<T>(g.range(-1000000, 1000000)) / static_cast<T>(1000);
        case 6: return static_cast<T>(1) + std::numeric_limits<T>::epsilon() * static_cast<T>(g.below(5));
        default: {
            T m = static_cast<T>(g.unit() * 2 - 1);
            int ex = static_cast<int>(g.range(std::is_same_v<T, float> ? -120 : -1000, std::is_same_v<T, float> ? 120 : 1000));
            return std::ldexp(m, ex);
        }
        }
    }
}
// How one element looks on a stream with this formatting.
template <class T>
std::string elem_text(const T &x, const std::ios &fmt)
{
    std::ostringstream s;
    s.flags(fmt.flags());
    s.precision(fmt.precision());
    s.imbue(fmt.getloc());
    if constexpr (is_cplx<T>::value) s << '(' << x.real() << ',' << x.imag() << ')';
    else s << x;
    return s.str();
}
// The value a decimal text stands for.
inline double part_value(const std::string &s, double) { return std::strtod(s.c_str(), nullptr); }
inline float part_value(const std::string &s, float) { return std::strtof(s.c_str(), nullptr); }
inline int part_value(const std::string &s, int) { return static_cast<int>(std::strtoll(s.c_str(), nullptr, 10)); }
inline long part_value(const std::string &s, long) { return std::strtol(s.c_str(), nullptr, 10); }
inline unsigned part_value(const std::string &s, unsigned) { return static_cast<unsigned>(std::strtoull(s.c_str(), nullptr, 10)); }
template <class T>
T text_value(const std::string &s)
{
    if constexpr (is_cplx<T>::value) {
        size_t c = s.find(',');
        typedef typename T::value_type P;
        return T(part_value(s.substr(1, c - 1), P()), part_value(s.substr(c + 1), P()));
    } else
        return part_value(s, T());
}
inline bool text_number(const std::string &s, bool integer)
{
    size_t i = 0, n = s.size();
    auto dig = [&] { size_t b = i; while (i < n && s[i] >= '0' && s[i] <= '9') ++i; return i > b; };
    if (i < n && (s[i] == '-' || s[i] == '+')) ++i;
    if (!dig()) return false;
    if (integer) return i == n;
    if (i < n && s[i] == '.') {
        ++i;
        if (!dig()) return false;
    }
    if (i < n && (s[i] == 'e' || s[i] == 'E')) {
        ++i;
        if (i < n && (s[i] == '-' || s[i] == '+')) ++i;
        if (!dig()) return false;
    }
    return i == n;
}
// Whether a text is an ordinary rendering of a T (every reader must accept it).
template <class T>
bool plain_text(const std::string &s)
{
    if constexpr (is_cplx<T>::value) {
        size_t c = s.find(',');
        if (s.size() < 5 || s[0] != '(' || s.back() != ')' || c == std::string::npos) return false;
        std::string a = s.substr(1, c - 1), b = s.substr(c + 1, s.size() - c - 2);
        typedef typename T::value_type P;
        return plain_text<P>(a) && plain_text<P>(b);
    } else if constexpr (std::is_integral_v<T>) {
        if (!text_number(s, true) || s.size() > 25 || s[0] == '+') return false;
        if (!std::is_signed_v<T> && s[0] == '-') return false;
        std::istringstream i(s);
        T x;
        return !(i >> x).fail();
    } else {
        if (!text_number(s, false) || s.size() > 800) return false;
        T x = part_value(s, T());
        return std::isfinite(x);
    }
}

// ---------------------------------------------------------------- one object
// What an independent reader makes of some bytes: see read_record().
struct RefRecord {
    bool lenient = false;  // the bytes begin with something element-wise extraction accepts completely
    bool strict = false;   // ... in exactly the format the writer uses, closed by white space
    bool header = false;   // kind and dimensions could be read
    bool negative = false; // a dimension carries a minus sign
    uint64_t rows = 0, cols = 0; // (vector: rows)
    size_t end = 0;        // position after the last element
    uint64_t hash = 0;     // shape and elements
};
struct Obj {
    int type = 0, kind = 0;
    virtual ~Obj() {}
    virtual void save(std::ofstream &f) const = 0;
    virtual void print(std::ostream &f) const = 0;
    virtual void load(std::ifstream &f) = 0;          // vectors and matrices
    virtual bool is_vector() const { return kind == O_VECTOR; }
    virtual size_t rows() const = 0;
    virtual size_t cols() const = 0;
    virtual size_t elements() const = 0;
    virtual uint64_t digest() const = 0;              // shape and elements
    virtual uint64_t parent_digest() const = 0;       // the same, of everything behind a view
    virtual uint64_t rounded(const std::ios &fmt) const = 0; // digest of what the text stands for
    virtual std::string text(const std::ios &fmt) const = 0; // the expected text
    virtual std::string record(const std::ios &fmt) const = 0; // the expected file contents, up to white space
    virtual std::string dump(const char *name) const = 0;    // library calls
    virtual std::string matlab(const char *name) const = 0;
    virtual std::string dump_model(const char *name) const = 0; // what they should return
    virtual std::string matlab_model(const char *name) const = 0;
    virtual void check(const char *what) const = 0;
    virtual void use(uint64_t seed) = 0;              // copies, assigns, resizes, writes
    virtual void randomise(uint64_t seed) = 0;
    virtual RefRecord reference(const std::string &bytes, size_t pos) const = 0;
};
Obj *make_obj(int type, int kind, size_t r, size_t c, uint64_t seed, int style);
void free_obj(Obj *o);

template <class T>
uint64_t shape_hash(bool vec, size_t r, size_t c) { return mix(mix(vec ? 11 : 12, r), vec ? 0 : c); }
template <class T>
RefRecord read_record(bool vec, const std::string &b, size_t pos)
{
    RefRecord o;
    std::istringstream s(b.substr(std::min(pos, b.size())));
    char type = 0;
    if (!(s >> type) || type != (vec ? 'V' : 'M')) return o;
    {
        std::string rest = b.substr(pos + static_cast<size_t>(s.tellg()));
        std::istringstream q(rest);
        std::string a;
        q >> a;
        if (!a.empty() && a[0] == '-') o.negative = true;
        if (a.find('-') != std::string::npos) o.negative = true;
        q >> a;
        if (!vec && a.find('-') != std::string::npos) o.negative = true;
    }
    size_t r = 0, c = 0;
    if (!(s >> r)) return o;
    if (!vec && !(s >> c)) return o;
    o.header = true;
    o.rows = r;
    o.cols = c;
    size_t n;
    if (vec) n = r;
    else if (__builtin_mul_overflow(r, c, &n)) return o;
    if (n > b.size()) return o; // every element takes a byte
    if (s.eof()) {
        return o; // (cannot tell whether the last dimension is complete)
    }
    o.hash = shape_hash<T>(vec, r, c);
    for (size_t i = 0; i < n; ++i) {
        T x{};
        if (!(s >> x)) return o;
        o.hash = mix(o.hash, bits(x));
    }
    if (s.eof()) return o; // the end of the last element cannot be seen
    o.lenient = true;
    o.end = pos + static_cast<size_t>(s.tellg());
    // strict: white-space separated words
    size_t p = pos;
    auto space = [&] { size_t q = p; while (p < b.size() && isspace(static_cast<unsigned char>(b[p]))) ++p; return p > q; };
    auto word = [&] { size_t q = p; while (p < b.size() && !isspace(static_cast<unsigned char>(b[p]))) ++p; return b.substr(q, p - q); };
    auto dim = [&](uint64_t v) {
        if (!space()) return false;
        std::string w = word();
        return !w.empty() && w == std::to_string(v);
    };
    space();
    if (word() != (vec ? "V" : "M")) return o;
    if (!dim(r) || (!vec && !dim(c))) return o;
    for (size_t i = 0; i < n; ++i) {
        if (!space()) return o;
        if (!plain_text<T>(word())) return o;
    }
    if (p >= b.size()) return o;
    o.strict = !o.negative;
    return o;
}
template <class T>
struct ObjT : Obj {
    typedef malg::Vector<T> V;
    typedef malg::Matrix<T> M;
    typedef malg::View<M> W;
    typedef malg::View<const M> CW;
    V *v = nullptr;
    M *m = nullptr;
    W *w = nullptr;
    CW *cw = nullptr;
    size_t r0 = 0, c0 = 0, wr = 0, wc = 0; // the window
    ObjT(int type_, int kind_, size_t r, size_t c, uint64_t seed, int style)
    {
        type = type_;
        kind = kind_;
        Rng g(seed);
        if (kind == O_VECTOR) {
            v = static_cast<V *>(rt::arena_alloc(sizeof(V)));
            { rt::LibScope l; new (v) V(r); }
            for (size_t i = 0; i < r; ++i) const_cast<T *>(v->data())[i] = gen_elem<T>(g, style);
        } else {
            if (kind != O_MATRIX) r = std::max<size_t>(r, 1), c = std::max<size_t>(c, 1); // (windows are not empty)
            wr = r;
            wc = c;
            if (kind != O_MATRIX) {
                r0 = g.below(3);
                c0 = g.below(3);
                r += r0 + g.below(3);
                c += c0 + g.below(3);
            }
            m = static_cast<M *>(rt::arena_alloc(sizeof(M)));
            { rt::LibScope l; new (m) M(r, c, T(0)); }
            for (size_t i = 0; i < r * c; ++i) const_cast<T *>(m->data())[i] = gen_elem<T>(g, style);
            malg::Range rr{ r0, r0 + wr }, cr{ c0, c0 + wc };
            if (kind == O_VIEW) {
                w = static_cast<W *>(rt::arena_alloc(sizeof(W)));
                { rt::LibScope l; new (w) W(m, rr, cr); }
            } else if (kind == O_CVIEW) {
                cw = static_cast<CW *>(rt::arena_alloc(sizeof(CW)));
                { rt::LibScope l; new (cw) CW(m, rr, cr); }
            }
        }
    }
    ~ObjT() override
    {
        rt::LibScope l;
        if (w) w->~W();
        if (cw) cw->~CW();
        if (v) v->~V();
        if (m) m->~M();
    }
    template <class F>
    auto with(F &&f) const
    {
        if (v) return f(*v);
        if (w) return f(*w);
        if (cw) return f(*cw);
        return f(*m);
    }
    void save(std::ofstream &f) const override
    {
        rt::LibScope l;
        with([&](auto &x) { f << x; });
    }
    void print(std::ostream &f) const override
    {
        rt::LibScope l;
        with([&](auto &x) { f << x; });
    }
    void load(std::ifstream &f) override
    {
        rt::LibScope l;
        if (v) f >> *v;
        else f >> *m;
    }
    size_t rows() const override { return v ? v->size() : kind == O_MATRIX ? m->rows() : wr; }
    size_t cols() const override { return v ? 1 : kind == O_MATRIX ? m->cols() : wc; }
    size_t elements() const override { return v ? v->size() : rows() * cols(); }
    T at(size_t r, size_t c) const
    {
        if (v) return v->data()[r];
        return m->data()[(r0 + r) * m->cols() + c0 + c];
    }
    T lin(size_t i) const
    {
        if (v) return v->data()[i];
        return at(i / cols(), i % cols());
    }
    uint64_t digest() const override
    {
        uint64_t h = shape_hash<T>(v != nullptr, rows(), cols());
        for (size_t i = 0; i < elements(); ++i) h = mix(h, bits(lin(i)));
        return h;
    }
    uint64_t parent_digest() const override
    {
        if (v) return digest();
        uint64_t h = shape_hash<T>(false, m->rows(), m->cols());
        for (size_t i = 0; i < m->size(); ++i) h = mix(h, bits(m->data()[i]));
        return h;
    }
    uint64_t rounded(const std::ios &fmt) const override
    {
        uint64_t h = shape_hash<T>(v != nullptr, rows(), cols());
        for (size_t i = 0; i < elements(); ++i) h = mix(h, bits(text_value<T>(elem_text(lin(i), fmt))));
        return h;
    }
    std::string body(const std::ios &fmt) const
    {
        std::ostringstream plain;
        plain.precision(fmt.precision());
        size_t len = 0;
        for (size_t i = 0; i < elements(); ++i) len = std::max(len, elem_text(lin(i), plain).size());
        std::string o;
        size_t R = v ? 1 : rows(), C = v ? v->size() : cols();
        char fill = dynamic_cast<const std::basic_ios<char> *>(&fmt)->fill();
        for (size_t r = 0; r < R; ++r) {
            for (size_t c = 0; c < C; ++c) {
                std::string e = elem_text(v ? lin(c) : at(r, c), fmt);
                if (e.size() < len) {
                    std::string pad(len - e.size(), fill);
                    e = (fmt.flags() & std::ios::adjustfield) == std::ios::left ? e + pad : pad + e;
                }
                o += e;
                if (c + 1 < C) o += " ";
            }
            if (r + 1 < R) o += "\n";
        }
        return o;
    }
    std::string text(const std::ios &fmt) const override { return body(fmt); }
    std::string record(const std::ios &fmt) const override
    {
        if (v) return "V " + std::to_string(v->size()) + "\n" + body(fmt) + "\n";
        return "M " + std::to_string(rows()) + " " + std::to_string(cols()) + "\n" + body(fmt) + "\n";
    }
    std::string dump(const char *name) const override
    {
        std::string *s = nullptr;
        struct Del { std::string *&s; ~Del() { rt::LibScope l; delete s; } } d{ s };
        {
            rt::LibScope l;
            if (v) s = new std::string(malg::dump_vector(name, *v));
            else if (w) s = new std::string(malg::dump_matrix(name, *w));
            else if (cw) s = new std::string(malg::dump_matrix(name, *cw));
            else s = new std::string(malg::dump_matrix(name, *m));
        }
        return std::string(s->data(), s->size());
    }
    std::string matlab(const char *name) const override
    {
        std::string *s = nullptr;
        struct Del { std::string *&s; ~Del() { rt::LibScope l; delete s; } } d{ s };
        {
            rt::LibScope l;
            with([&](auto &x) { s = new std::string(malg::to_matlab(name, x)); });
        }
        return std::string(s->data(), s->size());
    }
    std::string dump_model(const char *name) const override
    {
        std::ostringstream plain;
        return std::string(name) + (v ? " = " : " = \n") + body(plain);
    }
    std::string matlab_model(const char *name) const override
    {
        std::ostringstream plain, sign;
        sign.setf(std::ios::showpos);
        std::string o = std::string(name) + " = [";
        if (v) {
            for (size_t i = 0; i < v->size(); ++i) o += (i ? " " : "") + elem_text(lin(i), plain);
        } else {
            for (size_t r = 0; r < rows(); ++r) {
                o += "[";
                for (size_t c = 0; c < cols(); ++c) {
                    if (c) o += " ";
                    T x = at(r, c);
                    if constexpr (is_cplx<T>::value) o += elem_text(x.real(), plain) + elem_text(x.imag(), sign) + "i";
                    else o += elem_text(x, plain);
                }
                o += "];";
            }
        }
        return o + "]";
    }
    void check(const char *what) const override
    {
        if (v) consistent(*v, what);
        else consistent(*m, what);
    }
    void use(uint64_t seed) override
    {
        Rng g(seed);
        auto go = [&](auto &x, auto make) {
            typedef std::decay_t<decltype(x)> X;
            size_t n = x.size();
            std::vector<T> old(x.data(), x.data() + n);
            X *copies = static_cast<X *>(rt::arena_alloc(sizeof(X) * 3));
            {
                rt::LibScope l;
                new (copies) X(x);
                new (copies + 1) X();
                copies[1] = x;
                new (copies + 2) X(std::move(copies[0]));
            }
            for (int k = 1; k < 3; ++k) {
                consistent(copies[k], "a copy of a loaded object");
                if (copies[k].size() != n || !std::equal(old.begin(), old.end(), copies[k].data(), [](const T &a, const T &b) { return bits(a) == bits(b); }))
                    rt::violate("wrong-value", "a copy of an object that was the target of a load differs from it");
            }
            {
                rt::LibScope l;
                make(x);
            }
            consistent(x, "a resized target of a load");
            {
                rt::LibScope l;
                x = copies[2];
                for (int k = 0; k < 3; ++k) copies[k].~X();
            }
            consistent(x, "an assigned target of a load");
            if (x.size() != n) rt::violate("wrong-value", "assigning to an object that was the target of a load gives %zu elements instead of %zu", x.size(), n);
        };
        size_t a = g.below(4), b = g.below(4);
        if (v) go(*v, [&](V &x) { x.resize(a); });
        else if (m->rows() <= 4096 && m->cols() <= 4096) go(*m, [&](M &x) { x.resize(a, b); }); // (rows without columns cost time)
    }
    void randomise(uint64_t seed) override
    {
        Rng g(seed);
        size_t r = g.below(5), c = g.below(5);
        rt::LibScope l;
        if (v) {
            v->resize(r);
            for (size_t i = 0; i < v->size(); ++i) (*v)[i] = gen_elem<T>(g, 0);
        } else {
            m->resize(r, c);
            for (size_t i = 0; i < m->size(); ++i) (*m)[i] = gen_elem<T>(g, 0);
        }
    }
    RefRecord reference(const std::string &b, size_t pos) const override { return read_record<T>(v != nullptr, b, pos); }
};
