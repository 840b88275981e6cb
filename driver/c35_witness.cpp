// Every entity the headers declare for users is named and instantiated here.
// The file is only ever compiled: no object of it is linked or run.
#include <bwsl/Accumulators.hpp>
#include <bwsl/Approx.hpp>
#include <bwsl/Bravais.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/Exceptions.hpp>
#include <bwsl/FileUtils.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Lattice.hpp>
#include <bwsl/LinSpace.hpp>
#include <bwsl/LogSpace.hpp>
#include <bwsl/MathUtils.hpp>
#include <bwsl/MonteCarloUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/Pairs.hpp>
#include <bwsl/RNGUtils.hpp>
#include <bwsl/RationalNum.hpp>
#include <bwsl/RelationalUtils.hpp>
#include <bwsl/accumulators/AccumulatorsExceptions.hpp>
#include <bwsl/accumulators/KahanAccumulator.hpp>
#include <bwsl/accumulators/KnuthWelfordAccumulator.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/accumulators/NeumaierAccumulator.hpp>
#include <bwsl/accumulators/WestAccumulator.hpp>
#include <bwsl/mcutils/MoveResult.hpp>
#include <bwsl/mcutils/MoveStats.hpp>
#include <bwsl/mcutils/MoveStatus.hpp>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <array>
#include <deque>
#include <iostream>
#include <list>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>

template class bwsl::RationalNum<int>;
template class bwsl::RationalNum<long>;
template class bwsl::RationalNum<long long>;
template class bwsl::LinSpace<double>;
template class bwsl::LinSpace<float>;
template class bwsl::LogSpace<double>;
template class bwsl::LogSpace<float>;

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(GlobalEnum, (Alpha)(Beta)(Delta))

namespace bwslw {
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(ScopedEnum, (One))
enum class Key { A, B };

template<class... T> void use(T&&...) {}

template<class T>
void archive(T& x)
{
  std::stringstream s;
  boost::archive::text_oarchive to(s);
  to << const_cast<T const&>(x);
  boost::archive::text_iarchive ti(s);
  ti >> x;
  boost::archive::binary_oarchive bo(s);
  bo << const_cast<T const&>(x);
  boost::archive::binary_iarchive bi(s);
  bi >> x;
}

template<class T>
void regular(T const& a)
{
  T d{};
  T b(a);
  T c(std::move(b));
  d = c;
  b = std::move(d);
  use(b, c);
}

template<class A>
void plain(A& a)
{
  a.Add(1.0);
  a.Reset();
  use(a.Sum(), a.Mean(), a.Count());
}

void accumulators()
{
  using namespace bwsl::accumulators;
  KahanAccumulator k;
  NeumaierAccumulator n;
  KnuthWelfordAccumulator w;
  WestAccumulator e;
  bwsl::NaiveInteger i;
  plain(k);
  plain(n);
  plain(w);
  use(w.Variance(true), w.ScaledVariance(), w.StandardDeviation(false), w.Error(true));
  e.Add(1.0, 2.0);
  e.Reset();
  use(e.Sum(), e.Mean(), e.Count(), e.PopulationVariance(), e.SampleFrequencyVariance(), e.SampleReliabilityVariance());
  i.Add(1L);
  i.Reset();
  use(i.Sum(), i.Mean(), i.Count(), i.Variance(true), i.ScaledVariance(), i.StandardDeviation(false));
  archive(k);
  archive(n);
  archive(w);
  archive(e);
  archive(i);
  regular(k);
  regular(n);
  regular(w);
  regular(e);
  regular(i);
  std::vector<double> v(3, 1.0);
  std::list<long> l(3, 1L);
  double raw[2] = { 1.0, 2.0 };
  use(bwsl::apply_accumulator(v.begin(), v.end(), k), bwsl::apply_accumulator(v.cbegin(), v.cend(), n), bwsl::apply_accumulator(l.begin(), l.end(), i), bwsl::apply_accumulator(raw, raw + 2, w));
  bwsl::exception::AccumulatorOverflow o;
  use(static_cast<std::exception const&>(o).what());
}

void approx()
{
  bwsl::Approx a(1.0);
  bwsl::Approx c(a);
  a.SetAbs(0.1).SetRel(0.1);
  use(a == 1.0, 1.0 == a, a != 1.0, 1.0 != a, a <= 1.0, 1.0 <= a, a >= 1.0, 1.0 >= a, a < 1.0, 1.0 < a, a > 1.0, 1.0 > a);
  use(a == 1, 1 == a, a < 1.0f);
  use(c);
}

template<class T>
void rational(T v)
{
  using R = bwsl::RationalNum<T>;
  R a(v, v), b;
  regular(a);
  use(a < b, a < v, v < a, a == b, a == v, v == a, a != b, a != v, v != a, a <= b, a <= v, v <= a, a > b, a > v, v > a, a >= b, a >= v, v >= a);
  use(a + b, a - b, a * b, a / b, a + v, a - v, a * v, a / v, v + a, v - a, v * a, v / a);
  use(static_cast<double>(a), static_cast<T>(a), a.IsInt(), a.GetNum(), a.GetDen());
  a.Simplify();
  std::stringstream s;
  s << a;
  s >> a;
}

template<class T>
void spaces()
{
  bwsl::LinSpace<T> l(T(1), T(2), 4UL);
  bwsl::LogSpace<T> g(T(1), T(2), 4UL);
  bwsl::LogSpace<T> h(0L, 2L, 4UL, 10.0);
  use(l(), *l, ++l, l++, l.begin(), l.end(), l.Collect(3UL), l == l, l != l);
  use(g(), *g, ++g, g++, g.begin(), g.end(), g.Collect(3UL), g == g, g != g);
  for (auto x : l)
    use(x);
  for (auto x : g)
    use(x);
  use(h);
}

void geometry()
{
  using B = bwsl::HyperCubicGrid::boundaries_t;
  bwsl::HyperCubicGrid g({ 2UL, 3UL }, B::Closed);
  regular(g);
  auto c = g.GetCoordinates(1);
  g.EnforceBoundaries(c);
  use(g.GetDim(), g.HasOpenBoundaries(), g.HasClosedBoundaries(), g.GetSize(), g.GetMappedSite(0, 1), g.GetUnMappedSite(0, 1), g.GetIndex(c), g.IsOnGrid(c), g.GetIndividualIndices(1), g.GetPairIndex(0, 1), g.GetNumSites(), g.IndexIsValid(0), g.GetBoundaries(), g.GetJump(0, 1), g.GetGrid());
  auto const& b = bwsl::TriangularLattice;
  bwsl::Bravais b2(b);
  bwsl::Bravais b3(std::move(b2));
  b2 = b;
  b3 = std::move(b2);
  auto r = b.GetRealSpace(c);
  use(b.GetDim(), b.GetGamma(), b.GetInverseVector(r), b.GetReciprocalSpace(c), b.GetVector(c, c), b.GetDistance(c, c), b.GetDistanceVector(c, c), b.GetNeighbor(c, 1));
  use(bwsl::ChainLattice, bwsl::SquareLattice, bwsl::CubicLattice, bwsl::TriangularLattice);
  bwsl::Lattice l(b, { 2UL, 3UL });
  bwsl::Lattice lo(b, { 2UL, 3UL }, B::Open);
  regular(l);
  l.EnforceBoundaries(c);
  std::vector<int> oi(6, 1);
  std::vector<double> od(6, 1.0), sk(6, 0.0);
  std::vector<long> ol(6, 1L);
  std::vector<size_t> os(6, 1UL);
  use(l.GetNeighbors(0), l.GetDistance(0, 1), l.GetVector(0, 1), l.GetWinding(c), l.GetPosition(0), l.AreNeighbors(0, 1), l.GetCoordination(0), l.GetCoordination(), l.GetMomentum(0));
  l.AccumulateSk(oi, sk);
  l.AccumulateSk(od, sk, 2.0);
  use(l.ComputeSk(oi), l.ComputeSk(od, 2.0), l.ComputeSk(ol), l.ComputeSk(os));
  l.SaveDistances("");
  l.SavePositions("");
  l.SaveMomenta("");
  l.SavePairs("");
  use(bwsl::pairs::GetPairIndex(0, 1, 2), bwsl::pairs::GetPairIndex(std::make_pair(std::size_t(0), std::size_t(1)), 2), bwsl::pairs::GetPair(1, 2), bwsl::pairs::GetNumPairs(2));
}

template<class E>
void enums(E e)
{
  FromString(e, "x");
  use(ToString(e));
}

void text()
{
  enums(GlobalEnum::Beta);
  enums(ScopedEnum::One);
  EnumStringConversionFailed_ScopedEnum f("x");
  use(f.what());
  bwsl::exception::BadParsing p;
  use(p.what(), bwsl::compare_files("a", "b"));
}

void statistics()
{
  bwsl::HistAccumulator h(3);
  regular(h);
  h.Resize(4);
  h.Reset();
  h.Add(0);
  h.Add(0, 1.0);
  h.Add(0, 1);
  h.Add(0, 1L);
  h.Add(0, 1UL);
  h.ForceAdd(9);
  h.ForceAdd(9, 1.0);
  h.ForceAdd(9, 1);
  use(h.GetResult(0), h.GetResults(), h.GetResults(0), h.GetCount(), h.GetCount(0), h.GetNbins());
  archive(h);

  bwsl::ObservableGroup<std::string> o("f");
  bwsl::ObservableGroup<std::string> o2("f", { "a", "b" });
  regular(o2);
  o.AddObservable("x").AddObservable("y");
  o.Measure("x", 1.0);
  o.PrintHeaders();
  o.PrintAndReset();
  o.PrintAndReset(3UL);
  archive(o);
  bwsl::ObservableGroup<int> oi("f", { 1, 2 });
  oi.Measure(1, 1.0);
  oi.PrintHeaders();
  oi.PrintAndReset();
  oi.AddObservable(3);
  archive(oi);

  using namespace bwsl::montecarlo;
  MoveResult r(MoveStatus::Accepted, 0.5);
  regular(r);
  use(r.IsAccepted(), r.IsRejected(), r.IsImpossible(), r.Probability(), r.GetStatus(), MoveResult::Accept(0.1), MoveResult::Reject(0.1), MoveResult::Impossible());
  MoveStats m("x");
  regular(m);
  m.Propose();
  m.Accept(0.1);
  m.Reject(0.1);
  m.Impossible();
  m.Add(r);
  m.Reset();
  use(m.GetName(), m.GetAcceptedRatio(), m.GetRejectedRatio(), m.GetImpossibleRatio(), m.GetAverageProbability());
  std::cout << m;
  archive(m);
  exception::MoveInvalidSequence s("x");
  use(s.what());
  use(static_cast<std::exception const*>(static_cast<exception::InvalidProbability const*>(nullptr)));
}

void engines()
{
  std::mt19937 a;
  std::mt19937_64 b;
  archive(a);
  archive(b);
}

template<class T>
void arithmetic(T x)
{
  std::vector<T> v(3, x), w(3, x);
  std::array<T, 3> a{};
  use(bwsl::square(x), bwsl::cube(x), bwsl::accumulate_product(v), bwsl::accumulate_sum(v), bwsl::max(v), bwsl::min(v), bwsl::sum_squared<std::vector<T>, T>(v), bwsl::sgn(x), bwsl::absdiff(x, x));
  use(bwsl::accumulate_product(a), bwsl::accumulate_sum(a), bwsl::max(a), bwsl::min(a));
  use(bwsl::sum_into(v, w), bwsl::subtract_into(v, w));
  use(bwsl::upper_bound(v.begin(), v.end(), x), bwsl::upper_bound(v.cbegin(), v.cend(), x), bwsl::upper_bound(a.data(), a.data() + 3, x));
}

void mathutils()
{
  arithmetic(1);
  arithmetic(1L);
  arithmetic(1UL);
  arithmetic(1.0f);
  arithmetic(1.0);
  std::vector<double> d(3, 1.0);
  std::vector<float> fl(3, 1.0f);
  std::vector<int> i(3, 1);
  std::vector<size_t> u(3, 1UL);
  std::mt19937 g;
  std::mt19937_64 g64;
  use(bwsl::l2norm(d), bwsl::l2norm(fl), bwsl::l2norm(i), bwsl::signeddiff<size_t, long>(1, 2), bwsl::signeddiff<unsigned, int>(1, 2), bwsl::cbinomial(4L, 2L), bwsl::cbinomial(4, 2));
  use(bwsl::choose_between(d, g), bwsl::choose_between(d, g64), bwsl::choose_between_psums(d, g), bwsl::choose_between(fl, g), bwsl::choose_with_probability(0.5, g), bwsl::choose_with_probability(0.5f, g64));
  use(bwsl::invert(d), bwsl::invert(i), bwsl::get_inverted(d), bwsl::get_inverted(i));
  use(bwsl::array_to_index(i, u), bwsl::index_to_array<std::vector<int>>(1UL, u), bwsl::array_to_index(u, u), bwsl::index_to_array<std::vector<long>>(1UL, u));
  use(bwsl::get_gcd(1, 2), bwsl::get_gcd(1L, 2L), bwsl::get_gcd(1UL, 2UL));
  use(bwsl::heaviside(1.0), bwsl::heaviside(1.0f), bwsl::heaviside2(1.0), bwsl::heaviside2(1.0f), bwsl::lerp(0.0, 1.0, 0.5), bwsl::lerp(0.0f, 1.0f, 0.5f), bwsl::lerpi(1, 2, 0.0, 1.0), bwsl::lerpi(1UL, 2UL, 0.0f, 1.0f));
}

// the relational macros on a class of the user's own
struct P
{
  FDEFINEOVERLOADRELATIONAL(P, P)
  int v;
};
inline bool operator<(P const& a, P const& b) { return a.v < b.v; }
OVERLOADRELATIONAL(P, P)
struct Q
{
  FDEFINEOVERLOADRELATIONAL(Q, long)
  int v;
};
inline bool operator<(Q const& a, long const& b) { return a.v < b; }
inline bool operator<(long const& b, Q const& a) { return b < a.v; }
inline bool operator==(Q const& a, long const& b) { return a.v == b; }
inline bool operator>(long const& b, Q const& a) { return b > a.v; }
OVERLOADRELATIONALNOEQ(Q, long)
void relational(P p, Q q)
{
  use(p == p, p != p, p < p, p <= p, p > p, p >= p);
  use(q == 1L, q != 1L, q < 1L, q <= 1L, q > 1L, q >= 1L);
}

void all()
{
  accumulators();
  approx();
  rational(1);
  rational(1L);
  rational<long long>(1);
  spaces<double>();
  spaces<float>();
  geometry();
  text();
  statistics();
  engines();
  mathutils();
}
}
int main()
{
  if (std::getenv("BWSL_NEVER_RUN") != nullptr)
    bwslw::all();
}
