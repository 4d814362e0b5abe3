// The library under test plus helpers shared by all scenarios.
#pragma once
#include <malg/control/control.hpp>
#include <malg/feq.hpp>
#include <malg/io.hpp>
#include <malg/linalg.hpp>
#include <malg/math.hpp>
#include <malg/matrix.hpp>
#include <malg/utility.hpp>
#include <malg/vector.hpp>
#include <malg/view.hpp>

#include "plan.hpp"
#include <cstring>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

typedef std::complex<double> cd;

// ---------------------------------------------------------------- digests
inline uint64_t bits(double v)
{
    if (v != v) return 0x7ff8000000000000ull; // one NaN
    uint64_t u;
    memcpy(&u, &v, 8);
    return u;
}
inline uint64_t bits(float v) { return bits(static_cast<double>(v)); }
inline uint64_t bits(const cd &v) { return mix(bits(v.real()), bits(v.imag())); }
inline uint64_t bits(const std::complex<float> &v) { return mix(bits(v.real()), bits(v.imag())); }
template <class T, class = std::enable_if_t<std::is_integral_v<T>>>
inline uint64_t bits(T v) { return static_cast<uint64_t>(static_cast<int64_t>(v)) ^ 0x1234567; }
inline uint64_t hash_str(const std::string &s)
{
    uint64_t h = 0xcbf29ce484222325ull ^ s.size();
    for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
    return mix(h, s.size());
}

// A vector or matrix whose dimensions do not match its storage is corrupt.
template <class T>
void consistent(const malg::Vector<T> &v, const char *what)
{
    if (v.size() > (size_t(1) << 32)) rt::violate("corrupt-object", "%s: vector claims %zu elements", what, v.size());
    if (v.empty() != (v.size() == 0)) rt::violate("corrupt-object", "%s: empty() disagrees with size()", what);
    if (v.size() == 0) return;
    const T *p = v.data();
    if (!p) rt::violate("corrupt-object", "%s: vector of %zu elements has no storage", what, v.size());
    rt::check_range(p, sizeof(T) * v.size(), false);
}
template <class T>
void consistent(const malg::Matrix<T> &m, const char *what)
{
    if (m.rows() && m.cols() && (m.rows() > (size_t(1) << 32) || m.cols() > (size_t(1) << 32) || m.rows() * m.cols() > (size_t(1) << 32))) rt::violate("corrupt-object", "%s: matrix claims %zu x %zu elements", what, m.rows(), m.cols());
    if (m.size() != m.rows() * m.cols()) rt::violate("corrupt-object", "%s: size() is not rows() * cols()", what);
    if (m.empty() != (m.size() == 0)) rt::violate("corrupt-object", "%s: empty() disagrees with size()", what);
    if (static_cast<size_t>(m.end() - m.begin()) != m.size()) rt::violate("corrupt-object", "%s: iteration covers %zd elements of a %zu x %zu matrix", what, static_cast<ssize_t>(m.end() - m.begin()), m.rows(), m.cols());
    if (m.size() == 0) return;
    const T *p = m.data();
    if (!p) rt::violate("corrupt-object", "%s: %zu x %zu matrix has no storage", what, m.rows(), m.cols());
    rt::check_range(p, sizeof(T) * m.size(), false);
}

// ---------------------------------------------------------------- run-time helpers
enum Ended { RETURNED = 0, REJECTED = 1, NO_MEMORY = 2, STREAM_FAILED = 3, OTHER_EXC = 4 };
inline const char *ended_name(int e)
{
    static const char *const n[] = { "returned", "rejected the operands", "threw bad_alloc", "marked its stream failed", "threw another exception" };
    return n[e];
}
// Runs f inside the library scope and classifies how it ended.
template <class F>
int in_library(F &&f)
{
    int e = RETURNED;
    int saved = rt::in_lib;
    rt::op_start();
    try {
        rt::LibScope l;
        f();
    } catch (const std::bad_alloc &) {
        rt::in_lib = saved;
        e = NO_MEMORY;
        rt::count(rt::K_THROW_ALLOC);
    } catch (const std::logic_error &) {
        rt::in_lib = saved;
        e = REJECTED;
        rt::count(rt::K_THROW_ARG);
    } catch (const std::runtime_error &) {
        rt::in_lib = saved;
        e = REJECTED;
        rt::count(rt::K_THROW_OTHER);
    } catch (const std::exception &) {
        rt::in_lib = saved;
        e = OTHER_EXC;
        rt::count(rt::K_THROW_OTHER);
    }
    rt::in_lib = saved;
    rt::count(rt::K_OPS);
    return e;
}
