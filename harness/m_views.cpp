// C30: views, creation functors, scalar utilities
#include "views.hpp"
FAMILY(view_matrix, 60000, 1500000)
{
    auto& g = c.rng;
    long m = g.coin(0.1) ? g.range(0, 1) : g.range(0, 9), n = g.coin(0.1) ? g.range(0, 1) : g.range(0, 9);
    int form = g.range(0, 5), depth = g.range(1, 6);
    bool row = form & 1;
    long ld = (row ? n : m) + (g.coin(0.4) ? 0 : g.range(1, 4));
    bool tight = ld == (row ? n : m) && g.coin();
    if (!tight) ld = std::max<long>(ld, 1);
    c.desc("view chain depth=%d on %ldx%ld %s ld=%ld index type %d", depth, m, n, row ? "row" : "col", ld, form / 2);
    Pool<T> P(std::max<long>(ld * (row ? m : n), 1));
    auto w = MM<T>::make(P.buf.data(), m, n);
    for (long j = 0; j < n; ++j)
        for (long i = 0; i < m; ++i) w.o[i + j * m] = row ? i * ld + j : i + j * ld;
    auto go = [&](auto I) {
        using I_t = decltype(I);
        if (row) {
            auto A = tight ? LegacyMatrix<T, I_t, Layout::RowMajor>((I_t)m, (I_t)n, P.buf.data()) : LegacyMatrix<T, I_t, Layout::RowMajor>((I_t)m, (I_t)n, P.buf.data(), (I_t)ld);
            exploreM(c, A, w, depth);
        }
        else {
            auto A = tight ? LegacyMatrix<T, I_t>((I_t)m, (I_t)n, P.buf.data()) : LegacyMatrix<T, I_t>((I_t)m, (I_t)n, P.buf.data(), (I_t)ld);
            exploreM(c, A, w, depth);
        }
    };
    if (form / 2 == 0) go(std::size_t());
    else if (form / 2 == 1) go(int());
    else go(long());
    c.ok("intact", P.intact(), "a view operation modified the data");
}
FAMILY(view_vector, 40000, 1000000)
{
    auto& g = c.rng;
    long n = g.range(0, 14), inc = g.coin(0.3) ? 1 : g.range(1, 4);
    int form = g.range(0, 8), depth = g.range(1, 6);
    c.desc("vector chain depth=%d n=%ld inc=%ld form=%d", depth, n, inc, form);
    Pool<T> P(std::max<long>(n * inc, 1) + 2);
    T* b = P.buf.data();
    auto mk = [&](bool fwd, long inc) {
        VV<T> w{b, {}};
        for (long i = 0; i < n; ++i) w.o.push_back((fwd ? i : n - 1 - i) * inc);
        return w;
    };
    switch (form) {
        case 0: { LegacyVector<T> x(n, b); exploreV(c, x, mk(true, 1), depth); break; }
        case 1: { LegacyVector<T, std::size_t, std::size_t> x(n, b, inc); exploreV(c, x, mk(true, inc), depth); break; }
        case 2: { LegacyVector<T, int, int> x((int)n, b, (int)inc); exploreV(c, x, mk(true, inc), depth); break; }
        case 3: { LegacyVector<T, std::size_t, std::size_t, Direction::Backward> x(n, b, inc); exploreV(c, x, mk(false, inc), depth); break; }
        case 4: { LegacyVector<T, int, int, Direction::Backward> x((int)n, b, (int)inc); exploreV(c, x, mk(false, inc), depth); break; }
        case 5: { LegacyVector<T, std::size_t, tlapack::internal::StrongOne, Direction::Backward> x(n, b); exploreV(c, x, mk(false, 1), depth); break; }
        case 6: {  // negative increment
            LegacyVector<T, long, long> x(n, b + (n ? (n - 1) * inc : 0), -inc);
            exploreV(c, x, mk(false, inc), depth);
            break;
        }
        case 7: {
            std::vector<T> x(P.buf.begin(), P.buf.begin() + n);
            VV<T> w{x.data(), {}};
            for (long i = 0; i < n; ++i) w.o.push_back(i);
            exploreV(c, x, w, depth);
            break;
        }
        case 8: {
            std::span<T> x(b, n);
            exploreV(c, x, mk(true, 1), depth);
            break;
        }
    }
    c.ok("intact", P.intact(), "a view operation modified the data");
}
FAMILY(view_band, 400, 8000)
{
    auto& g = c.rng;
    long m = g.range(1, 9), n = g.range(1, 9), kl = g.range(0, (int)m - 1), ku = g.range(0, (int)n - 1);
    c.desc("banded %ldx%ld kl=%ld ku=%ld", m, n, kl, ku);
    c.nt();
    Pool<T> P((kl + ku + 1) * n);
    auto go = [&](auto I) {
        using I_t = decltype(I);
        LegacyBandedMatrix<T, I_t> A((I_t)m, (I_t)n, (I_t)kl, (I_t)ku, P.buf.data());
        c.ok("band-size", (long)tlapack::nrows(A) == m && (long)tlapack::ncols(A) == n && (long)tlapack::size(A) == m * n && (long)tlapack::lowerband(A) == kl &&
                              (long)tlapack::upperband(A) == ku, "wrong sizes");
        const auto& B = A;
        for (long j = 0; j < n; ++j)
            for (long i = 0; i < m; ++i)
                if (j <= i + ku && i <= j + kl) {
                    long want = (ku + i - j) + j * (ku + kl + 1);
                    if (!c.ok("band", &A((I_t)i, (I_t)j) == P.buf.data() + want && &B((I_t)i, (I_t)j) == P.buf.data() + want, "(%ld,%ld) not at its band position", i, j)) return;
                }
    };
    if (g.coin()) go(std::size_t());
    else go(long());
}
FAMILY(view_create, 600, 8000)
{
    using namespace tlapack;
    auto& g = c.rng;
    long m = g.range(0, 8), n = g.range(0, 8);
    c.desc("create %ldx%ld", m, n);
    c.nt();
    auto mat = [&](auto* tag) {
        using A_t = std::remove_pointer_t<decltype(tag)>;
        Create<A_t> mk;
        std::vector<T> s1(g.coin() ? 0 : g.range(0, 5)), s2;
        auto A = mk(s1, m, n);
        auto B = mk(s2, m, n);
        c.ok("create", (long)nrows(A) == m && (long)ncols(A) == n && (long)s1.size() >= m * n, "%ld x %ld with %ld elements, want %ld x %ld", (long)nrows(A), (long)ncols(A), (long)s1.size(), m, n);
        if (!c.vio.empty()) return;
        c.ok("create", layout<A_t> == layout<decltype(A)>, "layout differs from the requested type's");
        std::map<long, int> s;
        for (long j = 0; j < n; ++j)
            for (long i = 0; i < m; ++i) {
                long o = &A(i, j) - s1.data();
                ++s[o];
                if (!c.ok("create", o >= 0 && o < (long)s1.size(), "(%ld,%ld) outside the container", i, j)) return;
                A(i, j) = T((double)(i + 100 * j));
                B(i, j) = T((double)(5000 + i + 100 * j));
            }
        c.ok("create", (long)s.size() == m * n, "elements of the new matrix overlap");
        bool good = true;
        for (long j = 0; j < n; ++j)
            for (long i = 0; i < m; ++i) good &= A(i, j) == T((double)(i + 100 * j)) && B(i, j) == T((double)(5000 + i + 100 * j));
        c.ok("create", good, "two created matrices are not independent");
    };
    auto vec = [&](auto* tag) {
        using V_t = std::remove_pointer_t<decltype(tag)>;
        Create<V_t> mk;
        std::vector<T> s1(g.coin() ? 0 : g.range(0, 5)), s2;
        auto x = mk(s1, n);
        auto y = mk(s2, n);
        c.ok("create-vec", (long)size(x) == n && (long)s1.size() >= n, "size %ld, want %ld", (long)size(x), n);
        if (!c.vio.empty()) return;
        for (long i = 0; i < n; ++i) {
            long o = &x[i] - s1.data();
            if (!c.ok("create-vec", o >= 0 && o < (long)s1.size(), "element %ld outside the container", i)) return;
            x[i] = T((double)i);
            y[i] = T((double)(100 + i));
        }
        bool good = true;
        for (long i = 0; i < n; ++i) good &= x[i] == T((double)i) && y[i] == T((double)(100 + i));
        c.ok("create-vec", good, "elements of created vectors overlap");
    };
    mat((LegacyMatrix<T>*)0);
    mat((LegacyMatrix<T, std::size_t, Layout::RowMajor>*)0);
    mat((LegacyMatrix<float, int>*)0);
    mat((LegacyMatrix<T, long, Layout::RowMajor>*)0);
    vec((LegacyVector<T>*)0);
    vec((LegacyVector<T, int, int>*)0);
    vec((LegacyVector<T, std::size_t, std::size_t>*)0);
    vec((LegacyVector<T, long, internal::StrongOne, Direction::Backward>*)0);
    vec((vector_type<LegacyVector<T>, std::vector<T>>*)0);
    mat((matrix_type<LegacyMatrix<T>, LegacyMatrix<T>>*)0);
    mat((matrix_type<LegacyMatrix<T, std::size_t, Layout::RowMajor>, LegacyMatrix<T, std::size_t, Layout::RowMajor>>*)0);
    mat((matrix_type<std::vector<T>, std::vector<T>>*)0);
    auto st = [&](auto cr, auto* tag) {
        constexpr int M = decltype(cr)::value / 10, N = decltype(cr)::value % 10;
        using A_t = std::remove_pointer_t<decltype(tag)>;
        CreateStatic<A_t, M, N> mk;
        std::vector<T> s(M * N + 1, T(3));
        auto A = mk(s.data());
        c.ok("create-static", (int)nrows(A) == M && (int)ncols(A) == N, "%d x %d, want %d x %d", (int)nrows(A), (int)ncols(A), M, N);
        c.ok("create-static", layout<A_t> == layout<decltype(A)>, "layout differs from the requested type's");
        std::map<long, int> cov;
        for (int j = 0; j < N; ++j)
            for (int i = 0; i < M; ++i) ++cov[&A(i, j) - s.data()];
        c.ok("create-static", (int)cov.size() == M * N && (cov.empty() || (cov.begin()->first == 0 && cov.rbegin()->first == M * N - 1)), "does not cover the given memory");
        CreateStatic<LegacyVector<T>, M + N> mv;
        CreateStatic<LegacyVector<T, int, int>, M + N> mv2;
        std::vector<T> s2(M + N + 1);
        auto x = mv(s2.data());
        auto y = mv2(s2.data());
        bool good = (int)size(x) == M + N && (int)size(y) == M + N;
        for (int i = 0; i < M + N && good; ++i) good = &x[i] == s2.data() + i && &y[i] == s2.data() + i;
        c.ok("create-static", good, "static vector does not cover the given memory");
    };
    st(std::integral_constant<int, 34>(), (LegacyMatrix<T>*)0);
    st(std::integral_constant<int, 25>(), (LegacyMatrix<T, std::size_t, Layout::RowMajor>*)0);
    st(std::integral_constant<int, 11>(), (LegacyMatrix<T, int>*)0);
    st(std::integral_constant<int, 0>(), (LegacyMatrix<T>*)0);
}
FAMILY(view_types, 3, 3)
{
    using namespace tlapack;
    c.desc("type deduction");
    c.nt();
    using CM = LegacyMatrix<T>;
    using RM = LegacyMatrix<T, std::size_t, Layout::RowMajor>;
    using SV = std::vector<T>;
    auto is = [&](const char* nm, bool b) { c.ok("types", b, "%s", nm); };
    using Rt = real_type<T>;
    using Ct = complex_type<T>;
    is("type_t col", is_same_v<type_t<CM>, T> && is_same_v<type_t<const CM>, T> && is_same_v<type_t<LegacyMatrix<const T>>, T>);
    is("type_t vec", is_same_v<type_t<LegacyVector<T>>, T> && is_same_v<type_t<SV>, T> && is_same_v<type_t<LegacyVector<const T, int, int>>, T>);
    is("size_type", is_same_v<size_type<LegacyMatrix<T, int>>, int> && is_same_v<size_type<CM>, std::size_t> && is_same_v<size_type<SV>, std::size_t> && is_same_v<size_type<LegacyVector<T, long, int>>, long>);
    is("layout", layout<CM> == Layout::ColMajor && layout<RM> == Layout::RowMajor && layout<LegacyVector<T>> == Layout::Strided && layout<LegacyVector<T, int, int, Direction::Backward>> == Layout::Strided);
    is("layout of transpose", layout<decltype(transpose_view(std::declval<CM&>()))> == Layout::RowMajor && layout<decltype(transpose_view(std::declval<RM&>()))> == Layout::ColMajor);
    is("matrix_type", layout<matrix_type<CM, CM>> == Layout::ColMajor && layout<matrix_type<RM, RM>> == Layout::RowMajor && layout<matrix_type<CM>> == Layout::ColMajor && layout<matrix_type<RM>> == Layout::RowMajor);
    is("matrix_type entries", is_same_v<type_t<matrix_type<CM, LegacyMatrix<Rt>>>, T> && is_same_v<type_t<matrix_type<LegacyMatrix<Rt>, LegacyMatrix<Ct>>>, Ct> && is_same_v<type_t<matrix_type<LegacyMatrix<Rt>, LegacyMatrix<Rt>, LegacyMatrix<Ct>>>, Ct>);
    is("vector_type entries", is_same_v<type_t<vector_type<LegacyVector<Rt>, LegacyVector<T>>>, T> && is_same_v<type_t<vector_type<SV, LegacyVector<Rt>>>, T> && is_same_v<type_t<vector_type<SV, SV>>, T>);
    is("real_type", is_same_v<real_type<Ct>, Rt> && is_same_v<real_type<Rt>, Rt> && is_same_v<real_type<const T>, Rt> && is_same_v<real_type<Ct, Rt>, Rt> && is_same_v<real_type<float, double>, double>);
    is("complex_type", is_same_v<complex_type<Rt>, Ct> && is_same_v<complex_type<Ct>, Ct> && is_same_v<complex_type<Rt, Ct>, Ct> && is_same_v<complex_type<float, std::complex<double>>, std::complex<double>>);
    is("scalar_type", is_same_v<scalar_type<Rt>, Rt> && is_same_v<scalar_type<T>, T> && is_same_v<scalar_type<Rt, Ct>, Ct> && is_same_v<scalar_type<Ct, Rt>, Ct> && is_same_v<scalar_type<Rt, Rt>, Rt> && is_same_v<scalar_type<float, std::complex<float>, double>, std::complex<double>> && is_same_v<scalar_type<Rt, StrongZero>, Rt>);
    is("is_real", tlapack::is_real<Rt> && !tlapack::is_real<Ct> && tlapack::is_complex<Ct> && !tlapack::is_complex<Rt> && tlapack::is_real<int> && !tlapack::is_real<float*> && tlapack::is_complex<const Ct>);
    is("real/complex matrices", is_same_v<real_type<CM>, LegacyMatrix<Rt>> && is_same_v<complex_type<RM>, LegacyMatrix<Ct, std::size_t, Layout::RowMajor>> && is_same_v<real_type<LegacyVector<T, int, int>>, LegacyVector<Rt, int, int>> && is_same_v<complex_type<LegacyVector<T>>, LegacyVector<Ct>>);
}
FAMILY(view_utils, 400, 6000)
{
    using namespace tlapack;
    auto& g = c.rng;
    c.desc("scalar utilities");
    c.nt();
    auto val = [&]() -> R {
        switch (g.range(0, 7)) {
            case 0: return R(0);
            case 1: return -R(0);
            case 2: return std::numeric_limits<R>::infinity();
            case 3: return -std::numeric_limits<R>::infinity();
            case 4: return std::numeric_limits<R>::quiet_NaN();
            case 5: return R(g.range(-5, 5));
            default: return R(g.sym()) * xldexp<R>(R(1), g.range(-40, 40));
        }
    };
    auto same = [](R a, R b) { return (isnan(a) && isnan(b)) || (a == b && std::signbit((long double)a) == std::signbit((long double)b)); };
    R a = val(), b = val();
    c.ok("sgn", isnan(a) || tlapack::sgn(a) == (a > R(0) ? 1 : a < R(0) ? -1 : 0), "sgn(%Lg)=%d", ld(F(a)), tlapack::sgn(a));
    c.ok("real", same(tlapack::real(a), a) && same(tlapack::imag(a), R(0)) && same(tlapack::conj(a), a), "real/imag/conj of %Lg", ld(F(a)));
    c.ok("square", same(tlapack::square(a), a * a), "square");
    c.ok("isnan", isnan(a) == (a != a) && isinf(a) == (a == a && (a > std::numeric_limits<R>::max() || a < -std::numeric_limits<R>::max())), "isnan/isinf of %Lg", ld(F(a)));
    c.ok("abs1", isnan(a) ? isnan(tlapack::abs1(a)) : same(tlapack::abs1(a), a < R(0) ? -a : a == R(0) ? R(0) : a), "abs1(%Lg)", ld(F(a)));
    using Ct = complex_type<R>;
    Ct z(a, b);
    c.ok("creal", same(real(z), a) && same(imag(z), b), "real/imag of (%Lg,%Lg)", ld(F(a)), ld(F(b)));
    Ct w = conj(z);
    c.ok("conj", same(real(w), a) && same(imag(w), -b), "conj of (%Lg,%Lg)", ld(F(a)), ld(F(b)));
    c.ok("cisnan", isnan(z) == (isnan(a) || isnan(b)), "isnan(%Lg,%Lg)", ld(F(a)), ld(F(b)));
    c.ok("cisinf", isinf(z) == (isinf(a) || isinf(b)), "isinf(%Lg,%Lg)", ld(F(a)), ld(F(b)));
    R s = (a < R(0) ? -a : a) + (b < R(0) ? -b : b), t = tlapack::abs1(z);
    c.ok("cabs1", (isnan(s) && isnan(t)) || s == t, "abs1(%Lg,%Lg)=%Lg", ld(F(a)), ld(F(b)), ld(F(t)));
    // machine constants
    int p = std::numeric_limits<R>::digits, emin = std::numeric_limits<R>::min_exponent, emax = std::numeric_limits<R>::max_exponent;
    auto p2 = [&](int e) { return xldexp<R>(R(1), e); };
    auto fl2 = [](int x) { return x >= 0 ? x / 2 : -((-x + 1) / 2); };
    auto cl2 = [&](int x) { return -fl2(-x); };
    c.ok("ulp", ulp<R>() == p2(1 - p), "ulp");
    c.ok("uroundoff", uroundoff<R>() == ulp<R>() * std::numeric_limits<R>::round_error(), "uroundoff");
    c.ok("digits", tlapack::digits<R>() == p, "digits");
    R sm = p2(std::max(emin - 1, 1 - emax));
    c.ok("safe_min", safe_min<R>() == sm && !isinf(R(1) / safe_min<R>()), "safe_min");
    c.ok("safe_max", safe_max<R>() == R(1) / sm, "safe_max");
    c.ok("blue", blue_min<R>() == p2(cl2(emin - 1)), "blue_min");
    c.ok("blue", blue_max<R>() == p2(fl2(emax - p + 1)), "blue_max");
    c.ok("blue", blue_scalingMin<R>() == p2(-fl2(emin - p)), "blue_scalingMin");
    c.ok("blue", blue_scalingMax<R>() == p2(-cl2(emax + p - 1)), "blue_scalingMax");
}
template <class E>
static std::string str(E e)
{
    std::ostringstream o;
    o << e;
    return o.str();
}
FAMILY(view_enums, 2, 2)
{
    using namespace tlapack;
    c.desc("enumerations and printing");
    c.nt();
    auto eq = [&](const std::string& a, const char* b) { c.ok("enum-print", a == b, "prints %s, want %s", a.c_str(), b); };
    eq(str(Layout::ColMajor), "ColMajor"), eq(str(Layout::RowMajor), "RowMajor"), eq(str(Layout::Strided), "Strided"), eq(str(Layout::Unspecified), "Unspecified");
    eq(str(Uplo::General), "General"), eq(str(Uplo::Upper), "Upper"), eq(str(Uplo::Lower), "Lower"), eq(str(Uplo::UpperHessenberg), "UpperHessenberg"), eq(str(Uplo::LowerHessenberg), "LowerHessenberg");
    eq(str(Uplo::StrictUpper), "StrictUpper"), eq(str(Uplo::StrictLower), "StrictLower");
    eq(str(Diag::NonUnit), "NonUnit"), eq(str(Diag::Unit), "Unit");
    eq(str(Op::NoTrans), "NoTrans"), eq(str(Op::Trans), "Trans"), eq(str(Op::ConjTrans), "ConjTrans"), eq(str(Op::Conj), "Conj");
    eq(str(Side::Left), "Left"), eq(str(Side::Right), "Right"), eq(str(Side::Both), "Both");
    eq(str(Norm::One), "One"), eq(str(Norm::Two), "Two"), eq(str(Norm::Inf), "Inf"), eq(str(Norm::Fro), "Fro"), eq(str(Norm::Max), "Max");
    eq(str(Direction::Forward), "Forward"), eq(str(Direction::Backward), "Backward");
    eq(str(StoreV::Columnwise), "Columnwise"), eq(str(StoreV::Rowwise), "Rowwise");
    auto is = [&](const char* nm, bool b) { c.ok("enum-conv", b, "%s", nm); };
    is("uplo", Uplo(GENERAL) == Uplo::General && Uplo(UPPER_HESSENBERG) == Uplo::UpperHessenberg && Uplo(LOWER_HESSENBERG) == Uplo::LowerHessenberg && Uplo(UPPER_TRIANGLE) == Uplo::Upper && Uplo(LOWER_TRIANGLE) == Uplo::Lower && Uplo(STRICT_UPPER) == Uplo::StrictUpper && Uplo(STRICT_LOWER) == Uplo::StrictLower);
    is("diag", Diag(NON_UNIT_DIAG) == Diag::NonUnit && Diag(UNIT_DIAG) == Diag::Unit);
    is("op", Op(NO_TRANS) == Op::NoTrans && Op(TRANSPOSE) == Op::Trans && Op(CONJ_TRANS) == Op::ConjTrans && Op(CONJUGATE) == Op::Conj);
    is("side", Side(LEFT_SIDE) == Side::Left && Side(RIGHT_SIDE) == Side::Right && Side(BOTH_SIDES) == Side::Both);
    is("norm", Norm(MAX_NORM) == Norm::Max && Norm(ONE_NORM) == Norm::One && Norm(TWO_NORM) == Norm::Two && Norm(INF_NORM) == Norm::Inf && Norm(FROB_NORM) == Norm::Fro);
    is("direction", Direction(FORWARD) == Direction::Forward && Direction(BACKWARD) == Direction::Backward);
    is("storev", StoreV(COLUMNWISE_STORAGE) == StoreV::Columnwise && StoreV(ROWWISE_STORAGE) == StoreV::Rowwise);
    // error messages carry their code; options default to full checking
    c.ok("error-msg", tlapack::internal::error_msg(7, "abc") == "[7] abc", "error_msg");
    EcOpts o;
    c.ok("ecopts", o.ec.inf && o.ec.nan && o.ec.internal && !NO_ERROR_CHECK.inf && !NO_ERROR_CHECK.nan && !NO_ERROR_CHECK.internal, "error check options");
    // debug printing shows every element once
    if constexpr (!IsC) {
        for (int m = 0; m <= 12; m += 3)
            for (int n = 1; n <= 9; n += 4) {
                std::vector<T> b(m * n);
                LegacyMatrix<T> A(m, n, b.data());
                for (int i = 0; i < m * n; ++i) b[i] = T(i + 1);
                std::ostringstream os;
                auto* old = std::cout.rdbuf(os.rdbuf());
                tlapack::print_matrix(A);
                std::cout.rdbuf(old);
                std::istringstream is_(os.str());
                bool good = true;
                double x;
                for (int i = 0; i < m; ++i)
                    for (int j = 0; j < n; ++j) good &= (bool)(is_ >> x) && x == (double)(i + j * m + 1);
                good &= !(is_ >> x);
                c.ok("print", good, "print_matrix of %d x %d", m, n);
                std::string t = tlapack::visualize_matrix_text(A), u = tlapack::visualize_matrix_table(A), v = tlapack::visualize_matrix(A);
                c.ok("visualize", v == (std::max(m, n) > 7 ? t : u), "visualize_matrix picks the wrong form");
            }
    }
}
VK_MAIN
