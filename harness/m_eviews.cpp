// C30: view operations on Eigen types
#include "views.hpp"
template <class T, int O>
using EM = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, O>;
constexpr int EO = VK_LI == 3 ? Eigen::ColMajor : Eigen::RowMajor;

FAMILY(eview_matrix, 20000, 300000)
{
    auto& g = c.rng;
    long m = g.coin(0.1) ? g.range(0, 1) : g.range(0, 9), n = g.coin(0.1) ? g.range(0, 1) : g.range(0, 9);
    constexpr bool row = EO == Eigen::RowMajor;
    int form = g.range(0, 1), depth = g.range(1, 6);
    long ld = (row ? n : m) + (form == 0 || g.coin(0.3) ? 0 : g.range(1, 4));
    c.desc("view chain depth=%d on %ldx%ld %s %s ld=%ld", depth, m, n, row ? "row" : "col", form ? "Map" : "Matrix", ld);
    auto model = [&](T* b) {
        auto w = MM<T>::make(b, m, n);
        for (long j = 0; j < n; ++j)
            for (long i = 0; i < m; ++i) w.o[i + j * m] = row ? i * ld + j : i + j * ld;
        return w;
    };
    if (form == 0) {
        EM<T, EO> A(m, n);
        for (long i = 0; i < m * n; ++i) A.data()[i] = T((double)i);
        exploreM(c, A, model(A.data()), depth);
        bool good = true;
        for (long i = 0; i < m * n; ++i) good &= A.data()[i] == T((double)i);
        c.ok("intact", good, "a view operation modified the data");
    }
    else {
        Pool<T> P(std::max<long>(ld * (row ? m : n), 1));
        Eigen::Map<EM<T, EO>, Eigen::Unaligned, Eigen::OuterStride<>> A(P.buf.data(), m, n, Eigen::OuterStride<>(ld));
        exploreM(c, A, model(P.buf.data()), depth);
        c.ok("intact", P.intact(), "a view operation modified the data");
    }
}
FAMILY(eview_vector, 10000, 200000)
{
    auto& g = c.rng;
    long n = g.range(0, 14), inc = g.coin(0.3) ? 1 : g.range(1, 4);
    int form = g.range(0, 3), depth = g.range(1, 6);
    if (form == 0 || form == 2) inc = 1;
    c.desc("vector chain depth=%d n=%ld inc=%ld form=%d", depth, n, inc, form);
    Pool<T> P(std::max<long>(n * inc, 1));
    auto mk = [&](T* b) {
        VV<T> w{b, {}};
        for (long i = 0; i < n; ++i) w.o.push_back(i * inc);
        return w;
    };
    using CV = Eigen::Matrix<T, Eigen::Dynamic, 1>;
    using RV = Eigen::Matrix<T, 1, Eigen::Dynamic>;
    if (form == 0) {
        CV x(n);
        for (long i = 0; i < n; ++i) x[i] = T((double)i);
        exploreV(c, x, mk(x.data()), depth);
    }
    else if (form == 1) {
        Eigen::Map<CV, Eigen::Unaligned, Eigen::InnerStride<>> x(P.buf.data(), n, Eigen::InnerStride<>(inc));
        exploreV(c, x, mk(P.buf.data()), depth);
    }
    else if (form == 2) {
        RV x(n);
        for (long i = 0; i < n; ++i) x[i] = T((double)i);
        exploreV(c, x, mk(x.data()), depth);
    }
    else {
        Eigen::Map<RV, Eigen::Unaligned, Eigen::InnerStride<>> x(P.buf.data(), n, Eigen::InnerStride<>(inc));
        exploreV(c, x, mk(P.buf.data()), depth);
    }
    c.ok("intact", P.intact(), "a view operation modified the data");
}
FAMILY(eview_create, 300, 4000)
{
    using namespace tlapack;
    auto& g = c.rng;
    long m = g.range(0, 8), n = g.range(0, 8);
    c.desc("create %ldx%ld", m, n);
    c.nt();
    auto mat = [&](auto* tag) {
        using A_t = std::remove_pointer_t<decltype(tag)>;
        Create<A_t> mk;
        std::vector<T> s1(g.coin() ? 0 : g.range(0, 5)), s2;
        auto A = mk(s1, m, n);
        auto B = mk(s2, m, n);
        c.ok("create", (long)nrows(A) == m && (long)ncols(A) == n, "%ld x %ld, want %ld x %ld", (long)nrows(A), (long)ncols(A), m, n);
        if (!c.vio.empty()) return;
        c.ok("create", layout<A_t> == layout<decltype(A)>, "layout differs from the requested type's");
        for (long j = 0; j < n; ++j)
            for (long i = 0; i < m; ++i) {
                A(i, j) = T((double)(i + 100 * j));
                B(i, j) = T((double)(5000 + i + 100 * j));
            }
        bool good = true;
        for (long j = 0; j < n; ++j)
            for (long i = 0; i < m; ++i) good &= A(i, j) == T((double)(i + 100 * j)) && B(i, j) == T((double)(5000 + i + 100 * j));
        c.ok("create", good, "two created matrices are not independent");
    };
    auto vec = [&](auto* tag) {
        using V_t = std::remove_pointer_t<decltype(tag)>;
        Create<V_t> mk;
        std::vector<T> s1, s2;
        auto x = mk(s1, n);
        auto y = mk(s2, n);
        c.ok("create-vec", (long)size(x) == n, "size %ld, want %ld", (long)size(x), n);
        if (!c.vio.empty()) return;
        for (long i = 0; i < n; ++i) {
            x[i] = T((double)i);
            y[i] = T((double)(100 + i));
        }
        bool good = true;
        for (long i = 0; i < n; ++i) good &= x[i] == T((double)i) && y[i] == T((double)(100 + i));
        c.ok("create-vec", good, "elements of created vectors overlap");
    };
    using CM = EM<T, Eigen::ColMajor>;
    using RM = EM<T, Eigen::RowMajor>;
    CM a0(2, 2);
    RM b0(2, 2);
    auto as = slice(a0, std::pair{0, 1}, std::pair{0, 1});
    auto ac = col(a0, 0);
    auto bc = col(b0, 0);
    mat((CM*)0);
    mat((RM*)0);
    mat((Eigen::Map<RM, Eigen::Unaligned, Eigen::OuterStride<>>*)0);
    mat((decltype(as)*)0);
    mat((matrix_type<CM, RM>*)0);
    mat((matrix_type<CM, LegacyMatrix<T>>*)0);
    mat((matrix_type<LegacyMatrix<T, std::size_t, Layout::RowMajor>, RM>*)0);
    vec((Eigen::Matrix<T, Eigen::Dynamic, 1>*)0);
    vec((decltype(ac)*)0);
    vec((decltype(bc)*)0);
    vec((vector_type<CM>*)0);
    vec((vector_type<RM, std::vector<T>>*)0);
    vec((vector_type<decltype(ac), LegacyVector<T>>*)0);
    auto ar = row(a0, 0);
    auto br = row(b0, 0);
    vec((Eigen::Matrix<T, 1, Eigen::Dynamic>*)0);
    vec((decltype(ar)*)0);
    vec((decltype(br)*)0);
    T buf[64];
    auto st = [&](auto cr, auto* tag) {
        constexpr int M = decltype(cr)::value / 10, N = decltype(cr)::value % 10;
        using A_t = std::remove_pointer_t<decltype(tag)>;
        CreateStatic<A_t, M, N> mk;
        auto A = mk(&buf[0]);
        auto B = mk(&buf[0] + 32);
        c.ok("create-static", (int)nrows(A) == M && (int)ncols(A) == N, "%d x %d, want %d x %d", (int)nrows(A), (int)ncols(A), M, N);
        if (M > 1 && N > 1) c.ok("create-static", layout<A_t> == layout<decltype(A)>, "layout differs from the requested type's");
        for (long j = 0; j < N; ++j)
            for (long i = 0; i < M; ++i) {
                A(i, j) = T((double)(i + 100 * j));
                B(i, j) = T((double)(5000 + i + 100 * j));
            }
        bool good = true;
        for (long j = 0; j < N; ++j)
            for (long i = 0; i < M; ++i) good &= A(i, j) == T((double)(i + 100 * j)) && B(i, j) == T((double)(5000 + i + 100 * j));
        c.ok("create-static", good, "two static matrices are not independent");
    };
    st(std::integral_constant<int, 34>(), (CM*)0);
    st(std::integral_constant<int, 42>(), (RM*)0);
    st(std::integral_constant<int, 44>(), (decltype(as)*)0);
    auto sv = [&](auto* tag) {
        using V_t = std::remove_pointer_t<decltype(tag)>;
        CreateStatic<V_t, 3> mv;
        auto x = mv(&buf[0]);
        auto y = mv(&buf[0] + 8);
        c.ok("create-static", (int)size(x) == 3 && (int)size(y) == 3, "static vector has the wrong size");
        for (int i = 0; i < 3; ++i) x[i] = T(i), y[i] = T(10 + i);
        bool good = true;
        for (int i = 0; i < 3; ++i) good &= x[i] == T(i) && y[i] == T(10 + i);
        c.ok("create-static", good, "two static vectors are not independent");
    };
    sv((vector_type<CM>*)0);
    sv((decltype(ac)*)0);
    sv((decltype(ar)*)0);
    sv((decltype(br)*)0);
    sv((Eigen::Matrix<T, 1, Eigen::Dynamic>*)0);
    st(std::integral_constant<int, 31>(), (CM*)0);
    st(std::integral_constant<int, 14>(), (RM*)0);
    using std::is_same_v;
    auto is = [&](const char* what, bool b) { c.ok("types", b, "%s", what); };
    is("type_t", is_same_v<type_t<CM>, T> && is_same_v<type_t<const RM>, T> && is_same_v<type_t<decltype(as)>, T> && is_same_v<type_t<decltype(ac)>, T>);
    is("size_type", is_same_v<size_type<CM>, Eigen::Index> && is_same_v<size_type<decltype(as)>, Eigen::Index>);
    is("layout", layout<CM> == Layout::ColMajor && layout<RM> == Layout::RowMajor && layout<decltype(as)> == Layout::ColMajor && layout<Eigen::Matrix<T, Eigen::Dynamic, 1>> == Layout::Strided);
    is("layout of a mixed deduction", layout<matrix_type<RM, RM>> == Layout::RowMajor && layout<matrix_type<CM, CM>> == Layout::ColMajor);
    is("real/complex", is_same_v<type_t<real_type<CM>>, real_type<T>> && is_same_v<type_t<complex_type<RM>>, complex_type<T>> && layout<real_type<RM>> == Layout::RowMajor && layout<complex_type<CM>> == Layout::ColMajor);
}
VK_MAIN
