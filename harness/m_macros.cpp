// Configuration of the library's check macros (C24): in each build configuration the argument-check and error macros behave as documented.
// The configuration under test is the one this file is compiled with: TLAPACK_CHECK_INPUT and TLAPACK_NDEBUG defined or not.
#include "vk.hpp"
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lahqr.hpp>
#include <tlapack/lapack/potf2.hpp>
#include <tlapack/lapack/potrf2.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/trsm.hpp>
#include <sstream>
using namespace vk;
namespace tl = tlapack;
#if defined(TLAPACK_CHECK_INPUT) && !defined(TLAPACK_NDEBUG)
static const bool CHECKS_ON = true;
#else
static const bool CHECKS_ON = false;
#endif
#ifndef TLAPACK_NDEBUG
static const bool ERRORS_ON = true;
#else
static const bool ERRORS_ON = false;
#endif
enum Out { NOTHROW, DOMAIN_, RUNTIME_, OTHER };
template <class F>
static Out out(F&& f, std::string& what)
{
    what.clear();
    try {
        f();
        return NOTHROW;
    }
    catch (std::domain_error& e) {
        what = e.what();
        return DOMAIN_;
    }
    catch (std::runtime_error& e) {
        what = e.what();
        return RUNTIME_;
    }
    catch (...) {
        return OTHER;
    }
}
// the macros themselves
FAMILY(macros_macros, 400, 4000)
{
    auto& g = c.rng;
    bool v = g.coin();
    int evals = 0, code = g.range(-9, 99);
    std::string w;
    c.desc("value=%d code=%d checks=%d errors=%d", v, code, CHECKS_ON, ERRORS_ON);
    c.nt();
    (void)evals;
    auto cond = [&] { ++evals; return v; };
    (void)cond;
    Out a = out([&] { tlapack_check(cond()); }, w);
    c.ok("check", a == (CHECKS_ON && !v ? DOMAIN_ : NOTHROW) && evals <= 1, "tlapack_check(%d) gives outcome %d", v, a);
    evals = 0;
    a = out([&] { tlapack_check_false(cond()); }, w);
    c.ok("check_false", a == (CHECKS_ON && v ? DOMAIN_ : NOTHROW) && evals <= 1, "tlapack_check_false(%d) gives outcome %d", v, a);
    a = out([&] { tlapack_error(code, "some text"); }, w);
    c.ok("error", a == (ERRORS_ON ? RUNTIME_ : NOTHROW), "tlapack_error gives outcome %d", a);
    if (a == RUNTIME_) c.ok("error.text", w == "[" + std::to_string(code) + "] some text", "message is '%s'", w.c_str());
    a = out([&] { tlapack_error_if(cond(), code, "some text"); }, w);
    c.ok("error_if", a == (ERRORS_ON && v ? RUNTIME_ : NOTHROW), "tlapack_error_if(%d) gives outcome %d", v, a);
    if (a == RUNTIME_) c.ok("error.text", w == "[" + std::to_string(code) + "] some text", "message is '%s'", w.c_str());
    std::ostringstream os;
    auto* old = std::cerr.rdbuf(os.rdbuf());
    a = out([&] { tlapack_warning(code, "some text"); }, w);
    std::cerr.rdbuf(old);
    c.ok("warning", a == NOTHROW && os.str() == (ERRORS_ON ? "[" + std::to_string(code) + "] some text\n" : ""), "tlapack_warning prints '%s', outcome %d", os.str().c_str(), a);
    tl::EcOpts e0, e1(tl::NO_ERROR_CHECK);
    c.ok("ecopts", e0.ec.internal && e0.ec.nan && e0.ec.inf && !e1.ec.internal && !e1.ec.nan && !e1.ec.inf, "default error-check options");
}
// invalid calls that are harmless when they are not checked
FAMILY(macros_invalid, 800, 8000)
{
    auto& g = c.rng;
    int n = g.range(1, 6), kind = (int)(c.idx % 4);
    c.desc("kind=%d n=%d", kind, n);
    c.nt();
    Mat<T> A(c, "A", n, n), B(c, "B", n, n), C(c, "C", n + 2, n + 2);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) A(i, j) = i == j ? T(3) : T(0), B(i, j) = rnd<T>(g);
    for (int j = 0; j < n + 2; ++j)
        for (int i = 0; i < n + 2; ++i) C(i, j) = rnd<T>(g);
    if (CHECKS_ON) C.freeze();
    auto Av = A.view(), Bv = B.view(), Cv = C.view();
    std::string w;
    Out a;
    if (kind == 0) a = out([&] { (void)tl::potf2(tl::Uplo::General, Av); }, w);
    else if (kind == 1) a = out([&] { tl::trsm((tl::Side)'X', tl::Uplo::Upper, tl::Op::NoTrans, tl::Diag::NonUnit, T(1), Av, Bv); }, w);
    else if (kind == 2) a = out([&] { (void)tl::lange((tl::Norm)'X', Av); }, w);
    else a = out([&] { auto X = tl::slice(Cv, std::pair<idx_t, idx_t>(0, n), std::pair<idx_t, idx_t>(0, n + 1)); (void)tl::trtri_recursive(tl::Uplo::Upper, tl::Diag::Unit, X); }, w);
    c.ok(kind == 0 ? "potf2" : kind == 1 ? "trsm" : kind == 2 ? "lange" : "trtri", a == (CHECKS_ON ? DOMAIN_ : NOTHROW), "invalid call gives outcome %d %s (checks %s)", a, w.c_str(), CHECKS_ON ? "on" : "off");
    // valid calls never complain
    Mat<T> D(c, "D", n, n), E(c, "E", n, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) D(i, j) = i == j ? T(3) : T(0), E(i, j) = rnd<T>(g);
    auto Dv = D.view(), Ev = E.view();
    a = out([&] { (void)tl::lange(tl::Norm::One, Dv); (void)tl::potf2(tl::Uplo::Lower, Dv); tl::trsm(tl::Side::Left, tl::Uplo::Lower, tl::Op::NoTrans, tl::Diag::NonUnit, T(1), Dv, Ev); (void)tl::trtri_recursive(tl::Uplo::Lower, tl::Diag::NonUnit, Dv); }, w);
    c.ok("valid", a == NOTHROW, "valid calls give outcome %d %s", a, w.c_str());
}
// computational failures: exception or info code
FAMILY(macros_failure, 800, 8000)
{
    auto& g = c.rng;
    int n = g.range(1, 8), bad = g.range(0, n - 1), kind = (int)(c.idx % 3);
    tl::Uplo u = g.coin() ? tl::Uplo::Lower : tl::Uplo::Upper;
    c.desc("kind=%d n=%d bad=%d uplo=%c errors=%d", kind, n, bad, (char)u, ERRORS_ON);
    c.nt();
    Mat<T> A(c, "A", n, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) A(i, j) = i == j ? T(i == bad ? (kind == 2 ? 0 : -4) : 4) : T(0);
    auto Av = A.view();
    int info = -99;
    std::string w;
    Out a = out([&] { info = kind == 0 ? tl::potf2(u, Av) : kind == 1 ? tl::potrf2(u, Av) : (int)tl::trtri_recursive(u, tl::Diag::NonUnit, Av); }, w);
    if (ERRORS_ON) {
        c.ok("thrown", a == RUNTIME_, "failure at %d gives outcome %d", bad, a);
        if (a == RUNTIME_ && kind == 0) c.ok("thrown.info", w.rfind("[" + std::to_string(bad + 1) + "] ", 0) == 0, "message '%s', the first failure is at %d", w.c_str(), bad + 1);
    }
    else c.ok("info", a == NOTHROW && info == bad + 1, "failure at %d gives outcome %d info %d", bad + 1, a, info);
}
VK_MAIN
