"""Behaviour-preserving edits; every check has to stay quiet (exit 0) on each of them.
usage: refactorings.py COPY [name...]   (COPY: a scratch copy of /repo, never /repo itself)"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/bwsl/'
R = []


def r(name, file, *subs):
    R.append((name, file if '/' in file and not file.startswith(('acc', 'mcu')) else H + file, subs))


r('enforce-mod', 'HyperCubicGrid.hpp', ('''      while (coords[i] < 0) {
        coords[i] += s;
      }
      while (coords[i] >= static_cast<long>(s)) {
        coords[i] -= s;
      }
''', '''      coords[i] %= s;
      if (coords[i] < 0) {
        coords[i] += s;
      }
'''))
r('enforce-helper', 'HyperCubicGrid.hpp', ('''      while (coords[i] < 0) {
        coords[i] += s;
      }
      while (coords[i] >= static_cast<long>(s)) {
        coords[i] -= s;
      }
''', '''      coords[i] = Wrap(coords[i], s);
'''), ('''protected:
  /// Check the dimensions''', '''protected:
  /// Wrap one coordinate
  static auto Wrap(long x, long s) -> long
  {
    while (x >= s) {
      x -= s;
    }
    while (x < 0) {
      x += s;
    }
    return x;
  }

  /// Check the dimensions'''))
r('enforce-early', 'HyperCubicGrid.hpp', ('''  if (HasClosedBoundaries()) {
    for (auto i = 0UL; i < dim_; i++) {
      auto s = static_cast<long>(size_[i]);
      while (coords[i] < 0) {
        coords[i] += s;
      }
      while (coords[i] >= static_cast<long>(s)) {
        coords[i] -= s;
      }
    }
  }
''', '''  if (!HasClosedBoundaries()) {
    return;
  }
  for (std::size_t i = 0; i != dim_; ++i) {
    auto const s = static_cast<long>(size_[i]);
    auto& c = coords[i];
    for (; c < 0; c += s) {
    }
    for (; c >= s; c -= s) {
    }
  }
'''))
r('ongrid-alg', 'HyperCubicGrid.hpp', ('''  for (auto i = 0UL; i < dim_; i++) {
    if (coords[i] < 0L || static_cast<size_t>(coords[i]) >= size_[i]) {
      return false;
    }
  }
  return true;
''', '''  auto result = true;
  for (auto i = dim_; i-- > 0UL;) {
    result = result && coords[i] >= 0L && coords[i] < static_cast<long>(size_[i]);
  }
  return result;
'''))
r('mapped-loop', 'HyperCubicGrid.hpp', ('''  auto cb = GetCoordinates(b);
  subtract_into(cb, GetCoordinates(a));
  EnforceBoundaries(cb);
  return GetIndex(cb);
''', '''  auto const ca = GetCoordinates(a);
  auto const cb = GetCoordinates(b);
  auto diff = coords_t(dim_, 0L);
  for (auto i = 0UL; i < dim_; i++) {
    diff[i] = cb[i] - ca[i];
  }
  EnforceBoundaries(diff);
  return GetIndex(diff);
'''))
r('jump-mod', 'HyperCubicGrid.hpp', ('''      if (cbi > si_half) {
        cbi -= si;
      }
      if ((cbi < -si_half) ||
          (si % 2 == 0 && cbi == -si_half)) {
        cbi += si;
      }
''', '''      if (cbi > si_half) {
        cbi -= static_cast<long>(si);
      } else if (cbi < -si_half || (si % 2 == 0 && cbi <= -si_half)) {
        cbi += static_cast<long>(si);
      }
'''))
r('jump-twice', 'HyperCubicGrid.hpp', ('''      auto si_half = static_cast<coords_t::value_type>(si / 2);
      if (cbi > si_half) {
        cbi -= si;
      }
      if ((cbi < -si_half) ||
          (si % 2 == 0 && cbi == -si_half)) {
        cbi += si;
      }
''', '''      auto const s = static_cast<long>(si);
      if (2 * cbi > s) {
        cbi -= s;
      } else if (2 * cbi <= -s) {
        cbi += s;
      }
'''))
r('jump-range', 'HyperCubicGrid.hpp', ('''    for (auto i = 0UL; i < GetDim(); i++) {
      auto& cbi = cb[i];
      auto si = GetSize()[i];
''', '''    auto i = 0UL;
    for (auto& cbi : cb) {
      auto const si = size_[i++];
'''))
r('numsites-ctor', 'HyperCubicGrid.hpp', ('''  , numsites_(accumulate_product(size))
  , numpairs_(pairs::GetNumPairs(numsites_))
  , boundaries_(boundaries)
{
''', '''  , boundaries_(boundaries)
{
  numsites_ = 1UL;
  for (auto s : size_) {
    numsites_ *= s;
  }
  numpairs_ = numsites_ * numsites_;
'''))
r('horner', 'MathUtils.hpp', ('''  auto result = C(dim, 0);

  for (auto i = 0UL; i < dim; i++) {
    prod /= size[i];
    result[i] = static_cast<typename C::value_type>(index / prod);
    index = index % prod;
  }
''', '''  auto result = C(dim, 0);

  for (auto i = 0UL; i < dim; i++) {
    prod /= size[i];
    auto const q = index / prod;
    result[i] = static_cast<typename C::value_type>(q);
    index -= q * prod;
  }
'''))
r('decode-back', 'MathUtils.hpp', ('''  auto prod = accumulate_product(size);

  auto result = C(dim, 0);

  for (auto i = 0UL; i < dim; i++) {
    prod /= size[i];
    result[i] = static_cast<typename C::value_type>(index / prod);
    index = index % prod;
  }
''', '''  auto result = C(dim, 0);

  for (auto i = dim; i > 0UL; i--) {
    result[i - 1] = static_cast<typename C::value_type>(index % size[i - 1]);
    index /= size[i - 1];
  }
'''))
r('product-loop', 'MathUtils.hpp', ('''  return std::accumulate(
    v.begin(), v.end(), static_cast<T>(1), std::multiplies<T>());
''', '''  auto p = static_cast<T>(1);
  for (auto const& x : v) {
    p *= x;
  }
  return p;
'''))
r('suminto-loop', 'MathUtils.hpp', ('''  std::transform(left.begin(),
                 left.end(),
                 right.begin(),
                 left.begin(),
                 std::plus<typename Container::value_type>());
''', '''  auto it = right.begin();
  for (auto& x : left) {
    x += *it;
    ++it;
  }
'''))
r('subinto-lambda', 'MathUtils.hpp', ('''                 left.begin(),
                 std::minus<typename Container::value_type>());
''', '''                 left.begin(),
                 [](auto const& x, auto const& y) { return x - y; });
'''))
r('sumsq', 'MathUtils.hpp', ('''  T d = 0;
  for (auto x : v) {
    d += square<T>(x);
  }
  return d;
''', '''  return std::accumulate(v.begin(), v.end(), static_cast<T>(0), [](T d, T x) { return d + x * x; });
'''))
r('l2norm-hop', 'MathUtils.hpp', ('''  auto d = typename Container::value_type{ 0 };
  for (auto x : v) {
    d += square(x);
  }
  return sqrt(d);
''', '''  return std::sqrt(sum_squared<Container, typename Container::value_type>(v));
'''))
r('sgn-if', 'MathUtils.hpp', ('''  return (T(0) < val) - (val < T(0));
''', '''  if (val > T(0)) {
    return 1;
  }
  return val < T(0) ? -1 : 0;
'''))
r('absdiff-max', 'MathUtils.hpp', ('''  return (a > b) ? (a - b) : (b - a);
''', '''  return std::max(a, b) - std::min(a, b);
'''))
r('gcd-loop', 'MathUtils.hpp', ('''  if (b == 0) {
    return a;
  }
  return get_gcd(b, a % b);
''', '''  while (b != 0) {
    auto const t = a % b;
    a = b;
    b = t;
  }
  return a;
'''))
r('choose-hand', 'MathUtils.hpp', ('''    std::upper_bound(comul.cbegin(), comul.cend(), rnd);

  return static_cast<SizeType>(std::distance(comul.cbegin(), choice));
''', '''    std::find_if(comul.cbegin(), comul.cend(), [rnd](auto x) { return rnd < x; });

  return static_cast<SizeType>(choice - comul.cbegin());
'''))
r('binomial-rename', 'MathUtils.hpp', ('''  for (T i = 1; i <= k; ++i) {
    res *= n + 1 - i;
    res /= i;
  }
''', '''  for (T i = 0; i < k; i++) {
    res = res * (n - i) / (i + 1);
  }
'''))
r('heaviside-if', 'MathUtils.hpp', ('''  return x >= 0.0 ? 1.0 : 0.0;
''', '''  if (x < 0.0) {
    return 0.0;
  }
  return 1.0;
'''))
r('heaviside2-one', 'MathUtils.hpp', ('''  if (x == 0.0) {
    return 0.5;
  }
  if (x > 0.0) {
    return 1.0;
  }

  return 0.0;
''', '''  return x > 0.0 ? 1.0 : (x < 0.0 ? 0.0 : 0.5);
'''))
r('ub-for', 'MathUtils.hpp', ('''  if (first == last) {
    return last;
  }

  auto it = first;
''', '''  if (!(first != last)) {
    return first;
  }

  auto it = first;
'''))
r('vectors-flat', 'Lattice.hpp', ('''        auto csm = coords_t(cs);
        for (auto m = 0UL; m < GetDim(); m++) {
          csm[m] += (img[m] - 1) * GetSize()[m];
        }
        auto [dist, vec] = bravais.GetDistanceVector(c0, csm);

        if (dist < mindist) {
          mindist = dist;
          minvec = vec;
        }
''', '''        for (auto m = 0UL; m < GetDim(); m++) {
          img[m] = cs[m] + (img[m] - 1) * static_cast<long>(GetSize()[m]);
        }
        auto const cand = bravais.GetDistanceVector(c0, img);

        if (mindist > cand.first) {
          mindist = cand.first;
          minvec = cand.second;
        }
'''))
r('vectors-helper', 'Lattice.hpp', ('''          csm[m] += (img[m] - 1) * GetSize()[m];
        }
''', '''          csm[m] += Shift(img[m], GetSize()[m]);
        }
'''), ('''protected:
  /// Compute the positions''', '''protected:
  /// Shift of the image
  static auto Shift(long k, size_t s) -> long { return (k - 1) * static_cast<long>(s); }

  /// Compute the positions'''))
r('neighbours-nested', 'Lattice.hpp', ('''      if (HasClosedBoundaries() || IsOnGrid(cj)) {
        EnforceBoundaries(cj);
        nn.push_back(GetIndex(cj));
      }
''', '''      if (HasOpenBoundaries() && !IsOnGrid(cj)) {
        continue;
      }
      EnforceBoundaries(cj);
      auto const idx = GetIndex(cj);
      nn.emplace_back(idx);
'''))
r('areneigh-loop', 'Lattice.hpp', ('''  auto result = std::find(neighbors_[a].begin(), neighbors_[a].end(), b);

  return result != neighbors_[a].end();
''', '''  for (auto n : neighbors_[a]) {
    if (n == b) {
      return true;
    }
  }
  return false;
'''))
r('areneigh-any', 'Lattice.hpp', ('''  auto result = std::find(neighbors_[a].begin(), neighbors_[a].end(), b);

  return result != neighbors_[a].end();
''', '''  auto const& nn = neighbors_[a];
  return std::any_of(nn.begin(), nn.end(), [b](index_t n) { return n == b; });
'''))
r('positions-reserve', 'Lattice.hpp', ('''  auto p = std::vector<realvec_t>{};
  auto c0 = GetCoordinates(0);
  for (auto i = 0UL; i < GetNumSites(); i++) {
    auto x = bravais.GetVector(c0, GetCoordinates(i));
    p.push_back(x);
  }

  return p;
''', '''  auto const n = GetNumSites();
  auto p = std::vector<realvec_t>(n);
  auto const origin = GetCoordinates(0);
  for (auto i = 0UL; i < n; ++i) {
    p[i] = bravais.GetVector(origin, GetCoordinates(i));
  }

  return p;
'''))
r('distances-loop', 'Lattice.hpp', ('''  auto p = realvec_t{};
  std::transform(vectors_.begin(),
                 vectors_.end(),
                 std::back_inserter(p),
                 [](realvec_t const& x) -> double {
                   return sqrt(sum_squared<realvec_t, double>(x));
                 });
  return p;
''', '''  auto p = realvec_t{};
  p.reserve(vectors_.size());
  for (auto const& x : vectors_) {
    p.push_back(l2norm(x));
  }
  return p;
'''))
r('distance-vec', 'Lattice.hpp', ('''  if (HasOpenBoundaries()) {
    return sqrt(sum_squared<realvec_t, double>(GetVector(a, b)));
  }
  auto s = GetMappedSite(a, b);
  return distance_[s];
''', '''  return HasOpenBoundaries() ? l2norm(GetVector(a, b)) : distance_[GetMappedSite(a, b)];
'''))
r('winding-loop', 'Lattice.hpp', ('''  std::transform(jumps.begin(),
                 jumps.end(),
                 GetSize().cbegin(),
                 jumps.begin(),
                 std::divides<typename coords_t::value_type>());

  return jumps;
''', '''  for (auto i = 0UL; i < jumps.size(); i++) {
    jumps[i] /= static_cast<long>(GetSize()[i]);
  }

  return jumps;
'''))
r('momenta-fold', 'Lattice.hpp', ('''      auto const x = static_cast<double>(ci[k]) / GetSize()[k];
      for (auto m = 0UL; m < GetDim(); m++) {
        kappa[m] += x * b[m];
      }
''', '''      auto const x = ci[k] / static_cast<double>(GetSize()[k]);
      std::transform(kappa.begin(), kappa.end(), b.begin(), kappa.begin(), [x](double u, double v) { return u + x * v; });
'''))
r('momenta-whole', 'Lattice.hpp', ('''    auto ci = GetCoordinates(i);
    for (auto k = 0UL; k < ci.size(); k++) {
      ci[k] -= GetSize()[k] / 2UL;
    }
''', '''    auto ci = GetCoordinates(i);
    for (auto k = 0UL; k < ci.size(); k++) {
      auto const half = static_cast<long>(GetSize()[k] / 2UL);
      ci[k] = ci[k] - half;
    }
'''))
r('sk-order', 'Lattice.hpp', ('''    auto im = 0.0;
    auto re = 0.0;

    for (auto j = 0UL; j < n; j++) {
      auto const x = GetVector(0, j);
      auto prod = 0.0;
      for (auto q = 0UL; q < GetDim(); q++) {
        prod += k[q] * x[q];
      }
      im += sin(prod) * occupations[j];
      re += cos(prod) * occupations[j];
    }
    sk[i] += mult * (square(im) + square(re)) / static_cast<double>(square(n));
''', '''    auto re = 0.0;
    auto im = 0.0;

    for (auto j = 0UL; j < n; j++) {
      auto const x = GetVector(0, j);
      auto const prod = std::inner_product(k.begin(), k.end(), x.begin(), 0.0);
      re += occupations[j] * std::cos(prod);
      im += occupations[j] * std::sin(prod);
    }
    auto const norm = mult / (static_cast<double>(n) * static_cast<double>(n));
    sk[i] += norm * (re * re + im * im);
'''))
r('sk-early', 'Lattice.hpp', ('''  if (!HasOpenBoundaries()) {
    AccumulateSk(occupations, sk, mult);
  }

  return sk;
''', '''  AccumulateSk(occupations, sk, mult);
  return sk;
'''))
r('save-helper', 'Lattice.hpp', ('''  for (auto i = 0UL; i < GetNumSites(); i++) {
    auto vec = GetPosition(i);
    fmt::print(out, "{}", i);
    for (auto const& v : vec) {
      fmt::print(out, ",{}", v);
    }
    fmt::print(out, "\\n");
  }
''', '''  for (auto i = 0UL; i < GetNumSites(); i++) {
    auto const vec = GetPosition(i);
    out << i;
    for (auto j = 0UL; j < vec.size(); j++) {
      fmt::print(out, ",{}", vec[j]);
    }
    out << '\\n';
  }
'''))
r('realspace-acc', 'Bravais.hpp', ('''      p[i] += coords[j] * pvectors_[i + j * dim_];
    }
  }
  return p;
''', '''      p[i] += pvectors_[j * dim_ + i] * static_cast<double>(coords[j]);
    }
  }
  return p;
'''))
r('realspace-swap', 'Bravais.hpp', ('''  for (auto i = 0UL; i < dim_; i++) {
    for (auto j = 0UL; j < dim_; j++) {
      p[i] += coords[j] * pvectors_[i + j * dim_];
''', '''  for (auto j = 0UL; j < dim_; j++) {
    for (auto i = 0UL; i < dim_; i++) {
      p[i] += coords[j] * pvectors_[i + j * dim_];
'''))
r('recip-scale', 'Bravais.hpp', ('''      p[i] += coords[j] * 2 * M_PI * pivectors_[i + j * dim_];
    }
  }
''', '''      p[i] += coords[j] * pivectors_[i + j * dim_];
    }
    p[i] *= 2.0 * M_PI;
  }
'''))
r('distvec-reuse', 'Bravais.hpp', ('''  auto p = GetVector(first, second);
  auto d = 0.0;
  for (size_t i = 0; i < dim_; i++) {
    d += square(p[i]);
  }

  return std::sqrt(d);
''', '''  return GetDistanceVector(first, second).first;
'''))
r('neighbour-sign', 'Bravais.hpp', ('''  auto aidx = idx / 2UL;
  auto sidx = idx % 2UL == 0UL ? 1 : -1;
  auto n = point;

  for (auto i = 0UL; i < dim_; i++) {
    n[i] += sidx * neighbors_[aidx * dim_ + i];
  }
  return n;
''', '''  auto n = point;
  auto const base = (idx >> 1U) * dim_;
  for (auto i = 0UL; i < dim_; i++) {
    if ((idx & 1U) != 0U) {
      n[i] -= neighbors_[base + i];
    } else {
      n[i] += neighbors_[base + i];
    }
  }
  return n;
'''))
r('pairs-div', 'Pairs.hpp', ('''  return std::make_pair(i % maxval, i / maxval);
''', '''  auto const b = i / maxval;
  return { i - b * maxval, b };
'''))
r('pairs-order', 'Pairs.hpp', ('''  auto i = b * maxval + a;
  return i;
''', '''  return a + maxval * b;
'''))
r('kahan-names', 'accumulators/KahanAccumulator.hpp', ('''  auto y = x - c_;
  auto t = sum_ + y;
  c_ = (t - sum_) - y;
  sum_ = t;
  count_++;
''', '''  ++count_;
  double const corrected = x - c_;
  double const previous = sum_;
  sum_ = previous + corrected;
  c_ = (sum_ - previous) - corrected;
'''))
r('neumaier-swap', 'accumulators/NeumaierAccumulator.hpp', ('''  if (std::abs(sum_) >= std::abs(x)) {''', '''  if (!(std::fabs(x) > std::fabs(sum_))) {'''))
r('welford-inline', 'accumulators/KnuthWelfordAccumulator.hpp', ('''  double delta = x - mean_;
  mean_ += delta / count_;
  double delta2 = x - mean_;
  m2_ += delta * delta2;
''', '''  auto const n = static_cast<double>(count_);
  auto const delta = x - mean_;
  mean_ = mean_ + delta / n;
  m2_ = m2_ + (x - mean_) * delta;
'''))
r('welford-var', 'accumulators/KnuthWelfordAccumulator.hpp', ('''  auto ccount = corrected ? count_ - 1UL : count_;

  return m2_ / ccount;
''', '''  return ScaledVariance() / static_cast<double>(count_ - (corrected ? 1UL : 0UL));
'''))
r('west-r', 'accumulators/WestAccumulator.hpp', ('''    double oldmean = mean_;
    mean_ += (w / sum_weights_) * (m - oldmean);
    m2_ += w * (m - oldmean) * (m - mean_);
''', '''    auto const delta = m - mean_;
    auto const r = delta * w / sum_weights_;
    m2_ += (sum_weights_ - w) * delta * r;
    mean_ += r;
'''))
r('west-early', 'accumulators/WestAccumulator.hpp', ('''  if (w > 0.0) {
#ifdef''', '''  if (!(w > 0.0)) {
    return;
  }
  {
#ifdef'''))
r('naive-var', 'accumulators/NaiveIntegerAccumulator.hpp', ('''  return static_cast<double>(sum2_) - sum * sum / n;
''', '''  auto const mean = sum / n;
  return static_cast<double>(sum2_) - mean * mean * n;
'''))
r('hist-resize-loop', 'HistAccumulator.hpp', ('''  while (idx >= nbins_) {
    acc_.emplace_back();
    nbins_++;
    assert(nbins_ == acc_.size());
  }
  acc_[idx].Add(val);
  count_ += 1UL;
''', '''  if (idx >= nbins_) {
    Resize(idx + 1UL);
  }
  Add(idx, val);
'''))
r('hist-results', 'HistAccumulator.hpp', ('''  auto r = std::vector<double>(nbins_, 0.0);

  for (auto i = 0UL; i < nbins_; i++) {
    r[i] = GetResult(i);
  }

  return r;
''', '''  auto r = std::vector<double>{};
  r.reserve(nbins_);
  for (auto i = 0UL; i < nbins_; i++) {
    r.push_back(GetResult(i));
  }
  return r;
'''))
r('hist-norm', 'HistAccumulator.hpp', ('''  for (auto& v : r) {
    v /= norm;
  }
''', '''  std::transform(r.begin(), r.end(), r.begin(), [norm](double v) { return v / norm; });
'''), ('#include <vector>', '#include <algorithm>\n#include <vector>'))
r('group-range', 'ObservableGroup.hpp', ('''  auto it = accumulator_.begin();
  fmt::print(out, "{}", it->first);
  while (++it != accumulator_.end()) {
    fmt::print(out, ",{}", it->first);
  }
  fmt::print(out, ",Count");
  fmt::print(out, "\\n");
''', '''  for (auto const& kv : accumulator_) {
    fmt::print(out, "{},", kv.first);
  }
  fmt::print(out, "Count\\n");
'''))
r('group-print', 'ObservableGroup.hpp', ('''  auto it = accumulator_.begin();
  auto count = it->second.Count();
  fmt::print(out, "{:.{}e}", it->second.Mean(), precision);
  it->second.Reset();
  while (++it != accumulator_.end()) {
    fmt::print(out, ",{:.{}e}", it->second.Mean(), precision);
    it->second.Reset();
  }
  fmt::print(out, ",{}", count);
  fmt::print(out, "\\n");
''', '''  auto const count = accumulator_.begin()->second.Count();
  for (auto& [key, acc] : accumulator_) {
    fmt::print(out, "{:.{}e},", acc.Mean(), precision);
    acc.Reset();
  }
  fmt::print(out, "{}\\n", count);
'''))
r('group-insert', 'ObservableGroup.hpp', ('''  accumulator_.try_emplace(key);
  return *this;
''', '''  if (accumulator_.find(key) == accumulator_.end()) {
    accumulator_[key];
  }
  return *this;
'''))
r('move-if', 'mcutils/MoveStats.hpp', ('''  switch (res.GetStatus()) {
    case MoveStatus::Accepted:
      Accept(res.Probability());
      break;
    case MoveStatus::Rejected:
      Reject(res.Probability());
      break;
    case MoveStatus::Impossible:
      Impossible();
      break;
  }
''', '''  if (res.IsAccepted()) {
    Accept(res.Probability());
  } else if (res.IsRejected()) {
    Reject(res.Probability());
  } else {
    Impossible();
  }
'''))
r('move-order', 'mcutils/MoveStats.hpp', ('''  var += 1UL;
  proposedflag_ = false;
  prob_.Add(prob);
''', '''  prob_.Add(prob);
  ++var;
  proposedflag_ = false;
'''))
r('move-ratio', 'mcutils/MoveStats.hpp', ('''    return proposed_ == 0UL ? 0.0 : static_cast<double>(accepted_) / proposed_;
''', '''    if (proposed_ == 0UL) {
      return 0.0;
    }
    return static_cast<double>(accepted_) / static_cast<double>(proposed_);
'''))
r('move-reset', 'mcutils/MoveStats.hpp', ('''  proposed_ = 0UL;
  accepted_ = 0UL;
  rejected_ = 0UL;
  impossible_ = 0UL;
  proposedflag_ = false;
  prob_.Reset();
''', '''  prob_ = accumulators::KahanAccumulator{};
  proposedflag_ = false;
  proposed_ = accepted_ = rejected_ = impossible_ = 0UL;
'''))
r('rational-simplify', 'RationalNum.hpp', ('''  auto g = get_gcd(num_, den_);
  num_ = num_ / g;
  den_ = den_ / g;
  // keep the sign on the numerator
  if (den_ < 0) {
    num_ = -num_;
    den_ = -den_;
  }
''', '''  auto g = get_gcd(num_, den_);
  // keep the sign on the numerator
  if ((den_ < 0) != (g < 0)) {
    g = -g;
  }
  num_ /= g;
  den_ /= g;
'''))
r('rational-order', 'RationalNum.hpp', ('''  return lhs.num_ * rhs.den_ < rhs.num_ * lhs.den_;
''', '''  return rhs.num_ * lhs.den_ - lhs.num_ * rhs.den_ > 0;
'''))
r('rational-mixed', 'RationalNum.hpp', ('''  return RationalNum<G>{ lhs * rhs.den_ - rhs.num_, rhs.den_ };
''', '''  return RationalNum<G>(lhs, 1) - rhs;
'''))
r('rational-parse', 'RationalNum.hpp', ('''  if (!in || den == 0) {
    in.setstate(std::ios_base::failbit);
    return in;
  }
  rhs = RationalNum<T>(num, den);

  return in;
''', '''  if (in && den != 0) {
    rhs = RationalNum<T>(num, den);
  } else {
    in.setstate(std::ios_base::failbit);
  }

  return in;
'''))
r('approx-diff', 'Approx.hpp', ('''  return std::abs(lhs - rhs.value_) <=
         std::max(rhs.abs_, std::abs(rhs.rel_ * rhs.value_));
''', '''  auto const d = std::abs(rhs.value_ - lhs);
  return d <= rhs.abs_ || d <= rhs.rel_ * std::abs(rhs.value_);
'''))
r('approx-neg', 'Approx.hpp', ('''  return lhs.value_ > rhs || lhs == rhs;
''', '''  return lhs == rhs || rhs < lhs.value_;
'''))
r('enum-helper', 'EnumString.hpp', ('''      return message_.c_str();''', '''      return message_.data();'''))
r('lin-collect', 'LinSpace.hpp', ('''  std::vector<T> retval;
  retval.reserve(n);
  generate_n(std::back_inserter(retval), n, *this);
  return retval;
''', '''  std::vector<T> retval(n);
  auto copy = *this;
  for (auto& x : retval) {
    x = copy();
  }
  return retval;
'''))
r('lin-next', 'LinSpace.hpp', ('''  T retval = current_value_;
  operator++();
  return retval;
''', '''  return *((*this)++);
'''))
r('log-exp', 'LogSpace.hpp', ('''  base_ = pow(M_E, (log(last_) - log(first_)) / (static_cast<double>(steps)));
  current_value_ = first;
''', '''  base_ = pow(last_ / first_, 1.0 / static_cast<double>(steps));
  current_value_ = first_;
'''))
r('log-post', 'LogSpace.hpp', ('''  T retval = current_value_;
  operator++();
  return retval;
''', '''  auto const retval = **this;
  ++*this;
  return retval;
'''))
r('files-mismatch', 'FileUtils.hpp', ('''  if (f1.fail() || f2.fail()) {
    return false; // file problem
  }

  if (f1.tellg() != f2.tellg()) {
    return false; // size mismatch
  }
''', '''  if (!f1 || !f2) {
    return false; // file problem
  }

  auto const s1 = f1.tellg();
  auto const s2 = f2.tellg();
  if (s1 != s2) {
    return false; // size mismatch
  }
'''))
r('files-loop', 'FileUtils.hpp', ('''  return equal(std::istreambuf_iterator<char>(f1.rdbuf()),
               std::istreambuf_iterator<char>(),
               std::istreambuf_iterator<char>(f2.rdbuf()));
''', '''  auto a = std::istreambuf_iterator<char>(f1);
  auto b = std::istreambuf_iterator<char>(f2);
  auto const end = std::istreambuf_iterator<char>();
  return std::equal(a, end, b, end);
'''))
r('rng-text', 'RNGUtils.hpp', ('''  std::string text = oss.str();
  ar& text;
''', '''  auto text = oss.str();
  ar & text;
'''))
r('dumpmt-var', 'applications/dumpmt.cpp', ('''  auto rng = std::mt19937_64{seed};

  std::cout << rng << std::endl;
''', '''  std::mt19937_64 rng(seed);
  std::cout << rng << '\\n';
  std::cout.flush();
'''))
r('dumpmt-ac', 'applications/dumpmt.cpp', ('''  if (ac < 2) {
    return EXIT_FAILURE;
  }
''', '''  if (ac <= 1) {
    return 1;
  }
'''))


UB = '''    const auto lower = static_cast<double>(itval);
    const auto ratio = (static_cast<double>(value) - lower) /
                       (static_cast<double>(*to) - lower);
    auto np = count / 2;
    if (ratio >= 0.0 && ratio <= 1.0) {
      np = static_cast<decltype(np)>(
        std::round(ratio * static_cast<double>(count)));
    }
    auto nt = it;
    std::advance(nt, np);
'''
r('ub-ternary', 'MathUtils.hpp', (UB, '''    const double lower = itval;
    const double ratio = (static_cast<double>(value) - lower) /
                         (static_cast<double>(*to) - lower);
    const bool usable = ratio >= 0.0 && ratio <= 1.0;
    const auto np = usable ? static_cast<long>(std::round(ratio * static_cast<double>(count))) : static_cast<long>(count / 2);
    const auto nt = std::next(it, np);
'''), ('''      it = ++nt;
    } else {
      to = --nt;
''', '''      it = std::next(nt);
    } else {
      to = std::prev(nt);
'''))
r('ub-clamp', 'MathUtils.hpp', (UB, '''    const auto lower = static_cast<double>(itval);
    auto ratio = (static_cast<double>(value) - lower) /
                 (static_cast<double>(*to) - lower);
    if (!(ratio >= 0.0 && ratio <= 1.0)) {
      ratio = 0.5;
    }
    auto nt = it;
    nt += static_cast<long>(std::floor(ratio * static_cast<double>(count)));
'''))
r('ub-helper', 'MathUtils.hpp', (UB, '''    auto nt = it;
    std::advance(nt, interpolated(static_cast<double>(itval), static_cast<double>(*to), static_cast<double>(value), static_cast<long>(count)));
'''), ('''/// Interpolation-Binary search.
''', '''/// Interpolated position
inline auto
interpolated(double lower, double upper, double value, long count) -> long
{
  const auto ratio = (value - lower) / (upper - lower);
  if (ratio >= 0.0 && ratio <= 1.0) {
    return std::lround(ratio * static_cast<double>(count));
  }
  return count / 2;
}

/// Interpolation-Binary search.
'''))
r('ub-continue', 'MathUtils.hpp', ('''    if (!(value < *nt)) { // value >= *nt
      it = ++nt;
    } else {
      to = --nt;
    }
    count = std::distance(it, to);
''', '''    if (value < *nt) {
      to = nt - 1;
      count = to - it;
      continue;
    }
    it = nt + 1;
    count = to - it;
'''))
r('ub-forever', 'MathUtils.hpp', ('''  while (count > 10000) {
    auto itval''', '''  for (;;) {
    if (count <= 10000) {
      break;
    }
    auto itval'''))


def deps():
    inc = {}

    def closure(f, seen):
        if f in seen or not os.path.exists(f):
            return seen
        seen.add(f)
        s = open(f).read()
        for m in re.findall(r'#include [<"]([^>"]+)[>"]', s):
            for base in (os.path.dirname(f), '/repo/include', os.path.join(HERE, 'driver')):
                closure(os.path.normpath(os.path.join(base, m)), seen)
        return seen
    for f in sorted(os.listdir(os.path.join(HERE, 'driver'))):
        if f.endswith('.cpp') and f.startswith('C'):
            inc[f[:-4]] = {x[6:] for x in closure(os.path.join(HERE, 'driver', f), set()) if x.startswith('/repo/')}
    inc['C37'] = inc.get('C37', set()) | {'applications/dumpmt.cpp'}
    inc.pop('C35', None)
    return inc


def one(copy, name, file, subs, ids):
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', copy], check=True)
    p = os.path.join(copy, file)
    s = open(p).read()
    for a, b in subs:
        if a not in s:
            return True, '%-20s PATTERN GONE %r' % (name, a)
        s = s.replace(a, b, 1)
    open(p, 'w').write(s)
    out, bad, und = [], [], []
    for c in ids:
        x = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c, '--jobs', '2'], capture_output=True, text=True, env=dict(os.environ, BWSL_REPO=copy))
        if x.returncode:
            bad.append(c)
            out.append('    %s %s %s' % (c, [l for l in x.stdout.split('\n') if l.startswith('  C') or 'error' in l][:2], x.stderr[-400:]))
        m = re.search(r'(\d+) undecided', x.stdout)
        if m and m.group(1) != '0':
            und.append('%s:%s' % (c, m.group(1)))
    shutil.rmtree(copy, ignore_errors=True)
    return bool(bad), '\n'.join(['%-20s %s %s' % (name, 'ALARM ' + ' '.join(bad) if bad else 'quiet', 'undecided ' + ' '.join(und) if und else '')] + out)


def main():
    copy = sys.argv[1]
    names = sys.argv[2:]
    assert copy.startswith('/tmp/')
    d = deps()
    bad = 0
    todo = [(copy + str(i), n, f, s, [c for c in d if f in d[c]]) for i, (n, f, s) in enumerate(R) if not names or n in names]
    with ThreadPoolExecutor(6) as ex:
        for loud, text in ex.map(lambda a: one(*a), todo):
            bad += loud
            print(text, flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
