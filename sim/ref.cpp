#include "ref.hpp"

#include <cmath>
#include <limits>

#include <proxsuite/proxqp/sparse/sparse.hpp>

namespace sim {
static const double INF = std::numeric_limits<double>::infinity();

namespace {
// index layout: dx_1..dx_T then du_0..du_{T-1}
struct Lay {
  int T, n, nv, ne;
  std::vector<int> ou;
  explicit Lay(const PSnap& p) {
    T = p.T();
    n = p.ndx();
    int o = T * n;
    for (int t = 0; t < T; ++t) {
      ou.push_back(o);
      o += p.spec[static_cast<size_t>(t)]->k.nu;
    }
    nv = o;
    ne = T * n;
  }
  int ox(int t) const { return (t - 1) * n; }  // t >= 1
};

template <typename S>
struct Core {
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> V;
  const PSnap& p;
  Lay L;
  std::vector<Ders> d;
  Eval e;
  M H, A, G;
  V g, b;
  int nc;
  std::vector<int> oc;
  V lo, hi;
  std::vector<int> type;  // 0 free 1 equality 2 inequality
  Core(const PSnap& p, const Traj& xs, const Traj& us) : p(p), L(p) {
    d = diff_traj(p, xs, us);
    e = eval_traj(p, xs, us);
    const int T = L.T, n = L.n;
    H = M::Zero(L.nv, L.nv);
    g = V::Zero(L.nv);
    A = M::Zero(L.ne, L.nv);
    b = V::Zero(L.ne);
    nc = 0;
    for (int t = 0; t <= T; ++t) {
      oc.push_back(nc);
      nc += p.spec[static_cast<size_t>(t)]->ng();
    }
    G = M::Zero(nc, L.nv);
    lo = V::Zero(nc);
    hi = V::Zero(nc);
    type.assign(static_cast<size_t>(nc), 2);
    for (int t = 0; t <= T; ++t) {
      const size_t i = static_cast<size_t>(t);
      const Ders& k = d[i];
      const int m = t < T ? p.spec[i]->k.nu : 0;
      if (t > 0) {
        H.block(L.ox(t), L.ox(t), n, n) += k.Lxx.template cast<S>();
        g.segment(L.ox(t), n) += k.Lx.template cast<S>();
      }
      if (t < T) {
        H.block(L.ou[i], L.ou[i], m, m) += k.Luu.template cast<S>();
        g.segment(L.ou[i], m) += k.Lu.template cast<S>();
        if (t > 0) {
          H.block(L.ox(t), L.ou[i], n, m) += k.Lxu.template cast<S>();
          H.block(L.ou[i], L.ox(t), m, n) += k.Lxu.transpose().template cast<S>();
          A.block(t * n, L.ox(t), n, n) = -k.Fx.template cast<S>();
        }
        A.block(t * n, L.ou[i], n, m) = -k.Fu.template cast<S>();
        A.block(t * n, L.ox(t + 1), n, n).setIdentity();
        b.segment(t * n, n) = e.fs[i + 1].template cast<S>();
      }
      const int c = p.spec[i]->ng();
      for (int r = 0; r < c; ++r) {
        if (t > 0) G.block(oc[i] + r, L.ox(t), 1, n) = k.Gx.row(r).template cast<S>();
        if (m) G.block(oc[i] + r, L.ou[i], 1, m) = k.Gu.row(r).template cast<S>();
        double l = p.lb[i][r], u = p.ub[i][r];
        lo[oc[i] + r] = static_cast<S>(l) - static_cast<S>(e.v[i].g[r]);
        hi[oc[i] + r] = static_cast<S>(u) - static_cast<S>(e.v[i].g[r]);
        type[static_cast<size_t>(oc[i] + r)] =
            (l == -INF && u == INF) ? 0 : (std::fabs(l - u) <= 1e-6 ? 1 : 2);
      }
    }
  }
  void add_reg(M& X, double preg, double dreg) const {
    for (int i = 0; i < L.T * L.n; ++i) X(i, i) += static_cast<S>(preg);
    for (int i = L.T * L.n; i < L.nv; ++i) X(i, i) += static_cast<S>(dreg);
  }
  M kkt(const M& X) const {
    M K = M::Zero(L.nv + L.ne, L.nv + L.ne);
    K.topLeftCorner(L.nv, L.nv) = X;
    K.topRightCorner(L.nv, L.ne) = A.transpose();
    K.bottomLeftCorner(L.ne, L.nv) = A;
    return K;
  }
  // the same system solved by a Riccati recursion, which loses other digits
  V riccati(const M& X, const V& q) const {
    const int n = L.n;
    std::vector<M> K(static_cast<size_t>(L.T));
    std::vector<V> k(static_cast<size_t>(L.T));
    M P = X.block(L.ox(L.T), L.ox(L.T), n, n);
    V v = q.segment(L.ox(L.T), n);
    for (int t = L.T - 1; t >= 0; --t) {
      const size_t i = static_cast<size_t>(t);
      const int m = p.spec[i]->k.nu, u = L.ou[i];
      const M Fx = d[i].Fx.template cast<S>(), Fu = d[i].Fu.template cast<S>();
      const V h = P * b.segment(t * n, n) + v;
      M W = Fu.transpose() * P * Fx;
      V gu = q.segment(u, m) + Fu.transpose() * h;
      const M R = X.block(u, u, m, m) + Fu.transpose() * P * Fu;
      if (t > 0) W += X.block(u, L.ox(t), m, n);
      if (m) {
        Eigen::PartialPivLU<M> lu(R);
        K[i] = lu.solve(W);
        k[i] = lu.solve(gu);
      } else {
        K[i] = M::Zero(0, n);
        k[i] = V::Zero(0);
      }
      if (t == 0) break;
      v = q.segment(L.ox(t), n) + Fx.transpose() * h - K[i].transpose() * gu;
      M N = X.block(L.ox(t), L.ox(t), n, n) + Fx.transpose() * P * Fx - W.transpose() * K[i];
      P = S(0.5) * (N + N.transpose());
    }
    V w(L.nv), x = V::Zero(n);
    for (int t = 0; t < L.T; ++t) {
      const size_t i = static_cast<size_t>(t);
      V u = -k[i] - K[i] * x;
      w.segment(L.ou[i], u.size()) = u;
      x = d[i].Fx.template cast<S>() * x + d[i].Fu.template cast<S>() * u + b.segment(t * n, n);
      w.segment(L.ox(t + 1), n) = x;
    }
    return w;
  }
  V pack(const Traj& dx, const Traj& du) const {
    V w = V::Zero(L.nv);
    for (int t = 1; t <= L.T; ++t)
      w.segment(L.ox(t), L.n) = dx[static_cast<size_t>(t)].template cast<S>();
    for (int t = 0; t < L.T; ++t) {
      auto& u = du[static_cast<size_t>(t)];
      w.segment(L.ou[static_cast<size_t>(t)], u.size()) = u.template cast<S>();
    }
    return w;
  }
  void unpack(const V& w, Traj& dx, Traj& du) const {
    dx.assign(static_cast<size_t>(L.T) + 1, VectorXd::Zero(L.n));
    du.clear();
    for (int t = 1; t <= L.T; ++t)
      dx[static_cast<size_t>(t)] = w.segment(L.ox(t), L.n).template cast<double>();
    for (int t = 0; t < L.T; ++t)
      du.push_back(w.segment(L.ou[static_cast<size_t>(t)],
                             p.spec[static_cast<size_t>(t)]->k.nu)
                       .template cast<double>());
  }
};

template <typename S>
AdmmOut admm_t(const AdmmIn& in, bool riccati) {
  typedef Core<S> C;
  typedef typename C::M M;
  typedef typename C::V V;
  AdmmOut o;
  C c(*in.p, in.xs, in.us);
  const Cfg& cfg = in.cfg;
  const S sigma = cfg.get("sigma"), alpha = cfg.get("alpha");
  const int interval = static_cast<int>(cfg.get("rho_interval"));
  const double rho_min = 1e-6, rho_max = 1e3;
  double rho = in.rho0;
  V w;
  if (cfg.get("eq_guess") != 0) {
    M H = c.H;
    c.add_reg(H, in.preg, in.dreg);
    if (riccati) {
      w = c.riccati(H, c.g);
    } else {
      V rhs(c.L.nv + c.L.ne);
      rhs << -c.g, c.b;
      V s = c.kkt(H).partialPivLu().solve(rhs);
      w = s.head(c.L.nv);
    }
  } else {
    w = c.pack(in.dx0, in.du0);
  }
  V y = V::Zero(c.nc), z = V::Zero(c.nc);
  for (int t = 0; t <= c.L.T; ++t)
    for (int r = 0; r < in.p->spec[static_cast<size_t>(t)]->ng(); ++r)
      y[c.oc[static_cast<size_t>(t)] + r] = in.y0[static_cast<size_t>(t)][r];
  V rv(c.nc);
  auto fill_rho = [&]() {
    for (int i = 0; i < c.nc; ++i)
      rv[i] = c.type[static_cast<size_t>(i)] == 0   ? rho_min
              : c.type[static_cast<size_t>(i)] == 1 ? 1e3 * rho
                                                    : rho;
  };
  fill_rho();
  Eigen::PartialPivLU<M> lu;
  M H;
  bool have = false;
  o.ok = true;
  for (int it = 1; it <= in.iters; ++it) {
    if (!have) {
      H = c.H;
      c.add_reg(H, in.preg, in.dreg);
      for (int i = 0; i < c.L.nv; ++i) H(i, i) += sigma;
      if (c.nc) H += c.G.transpose() * rv.asDiagonal() * c.G;
      if (!riccati) lu.compute(c.kkt(H));
      have = true;
    }
    V rhs(c.L.nv + c.L.ne);
    V q = c.g - sigma * w;
    if (c.nc) q += c.G.transpose() * (y - rv.cwiseProduct(z));
    if (riccati) {
      w = c.riccati(H, q);
    } else {
      rhs << -q, c.b;
      V s = lu.solve(rhs);
      w = s.head(c.L.nv);
    }
    V zp = z, gw = c.nc ? V(c.G * w) : V::Zero(0);
    V zr = alpha * gw + (S(1) - alpha) * z;
    for (int i = 0; i < c.nc; ++i) {
      S v = zr[i] + y[i] / rv[i];
      if (v < c.lo[i]) v = c.lo[i];
      if (v > c.hi[i]) v = c.hi[i];
      z[i] = v;
    }
    y += rv.cwiseProduct(zr - z);
    auto grow = [&](const V& v) {
      if (v.size()) o.mag = std::max(o.mag, static_cast<double>(v.template lpNorm<Eigen::Infinity>()));
    };
    grow(w);
    grow(gw);
    grow(z);
    grow(y);
    if (it % interval == 0) {
      S np = -INF, nd = -INF, npr = -INF, ndr = -INF;
      for (int t = 0; t <= c.L.T; ++t) {
        const size_t i = static_cast<size_t>(t);
        const int k = in.p->spec[i]->ng();
        if (!k) continue;
        V zi = z.segment(c.oc[i], k), gi = gw.segment(c.oc[i], k), yi = y.segment(c.oc[i], k);
        V dz = rv.segment(c.oc[i], k).cwiseProduct(zi - zp.segment(c.oc[i], k));
        np = std::max(np, (gi - zi).template lpNorm<Eigen::Infinity>());
        npr = std::max(npr, gi.template lpNorm<Eigen::Infinity>());
        npr = std::max(npr, zi.template lpNorm<Eigen::Infinity>());
        if (cfg.get("rho_heur") != 0) {
          nd = std::max(nd, dz.template lpNorm<Eigen::Infinity>());
          ndr = std::max(ndr, yi.template lpNorm<Eigen::Infinity>());
        } else {
          M Gx = c.d[i].Gx.template cast<S>();
          nd = std::max(nd, V(Gx.transpose() * dz).template lpNorm<Eigen::Infinity>());
          ndr = std::max(ndr, V(Gx.transpose() * yi).template lpNorm<Eigen::Infinity>());
          if (t < c.L.T) {
            M Gu = c.d[i].Gu.template cast<S>();
            nd = std::max(nd, V(Gu.transpose() * dz).template lpNorm<Eigen::Infinity>());
            ndr = std::max(ndr, V(Gu.transpose() * yi).template lpNorm<Eigen::Infinity>());
          }
        }
      }
      o.np = static_cast<double>(np);
      o.nd = static_cast<double>(nd);
      o.npr = static_cast<double>(npr);
      o.ndr = static_cast<double>(ndr);
      auto close = [](double a, double b) {
        return std::fabs(a - b) <= 1e-6 * (std::fabs(a) + std::fabs(b)) + 1e-12;
      };
      double scale = std::sqrt((o.np * o.ndr) / (o.nd * o.npr));
      double est = std::min(std::max(scale * rho, rho_min), rho_max);
      double tol = std::floor(cfg.get("rho_tol"));
      o.noise = false;
      if (c.nc && (o.np < 1e-13 * (1 + o.npr) || o.nd < 1e-13 * (1 + o.ndr) || o.ndr < 1e-12 ||
                   o.npr < 1e-12)) {
        // residuals at rounding level: the ratio, hence the update, is noise
        o.noise = true;
        if (!(est == est) || it < in.iters) o.ambiguous = true;
      }
      if (close(est, rho * tol) || close(est, rho / tol)) o.ambiguous = true;
      if (est > rho * tol || est < rho / tol) {
        // what rounding leaves of the residuals the new penalty is computed from
        o.rho_err += 1e-13 * ((1 + o.npr) / o.np + (1 + o.ndr) / o.nd);
        rho = est;
        fill_rho();
        have = false;
      }
      double tp, td;
      if (std::fabs(cfg.get("eps_rel")) <= std::numeric_limits<double>::epsilon()) {
        tp = td = cfg.get("eps_abs");
      } else {
        tp = cfg.get("eps_abs") + cfg.get("eps_rel") * o.npr;
        td = cfg.get("eps_abs") + cfg.get("eps_rel") * o.ndr;
      }
      if (c.nc && (close(o.np, tp) || close(o.nd, td))) o.ambiguous = true;
      if (o.np <= tp && o.nd <= td && !o.should_stop) o.should_stop = it;
    }
  }
  c.unpack(w, o.dx, o.du);
  o.rho = rho;
  o.y.clear();
  o.z.clear();
  for (int t = 0; t <= c.L.T; ++t) {
    const size_t i = static_cast<size_t>(t);
    const int k = in.p->spec[i]->ng();
    o.y.push_back(y.segment(c.oc[i], k).template cast<double>());
    o.z.push_back(z.segment(c.oc[i], k).template cast<double>());
  }
  if (!all_finite(o.dx) || !all_finite(o.du) || !all_finite(o.y)) o.ok = false;
  return o;
}
}  // namespace

AdmmOut admm(const AdmmIn& in) {
  AdmmOut a = admm_t<double>(in, true), b = admm_t<long double>(in, false);
  b.ok = b.ok && a.ok;
  b.noise = b.noise || a.noise;
  b.mag = std::max(a.mag, b.mag);
  b.ambiguous = b.ambiguous || a.ambiguous || a.should_stop != b.should_stop;
  if (!b.ok) return b;
  auto rel = [](const Traj& x, const Traj& y) {
    return max_abs_diff(x, y) / (1.0 + max_abs(y));
  };
  b.err = std::max(std::max(rel(a.dx, b.dx), rel(a.du, b.du)),
                   std::max(rel(a.y, b.y), rel(a.z, b.z)));
  b.err = std::max(b.err, b.rho_err / 1e3);
  if (std::fabs(a.rho - b.rho) > 1e-9 * b.rho) {
    double r = std::fabs(a.rho - b.rho) / b.rho;
    b.err = std::max(b.err, r);
  }
  return b;
}

double riccati_margin(const PSnap& p, const Traj& xs, const Traj& us, double preg, double dreg) {
  std::vector<Ders> d = diff_traj(p, xs, us);
  const int T = p.T();
  MatrixXd V = d[static_cast<size_t>(T)].Lxx;
  V.diagonal().array() += preg;
  double m = INF;
  for (int t = T - 1; t >= 0; --t) {
    const Ders& k = d[static_cast<size_t>(t)];
    MatrixXd Q = k.Luu + k.Fu.transpose() * V * k.Fu;
    Q.diagonal().array() += dreg;
    if (!Q.allFinite()) return std::nan("");
    Eigen::SelfAdjointEigenSolver<MatrixXd> es;
    if (Q.rows()) es.compute(Q);
    double lo = 1, hi = 1;
    if (Q.rows()) {
      lo = es.eigenvalues().minCoeff();
      hi = es.eigenvalues().cwiseAbs().maxCoeff();
    }
    m = std::min(m, lo / std::max(hi, 1e-300));
    if (m <= 0) return m;
    MatrixXd Qux = k.Lxu.transpose() + k.Fu.transpose() * V * k.Fx;
    MatrixXd Qxx = k.Lxx + k.Fx.transpose() * V * k.Fx;
    MatrixXd W = Qxx;
    if (Q.rows()) W -= Qux.transpose() * Q.ldlt().solve(Qux);
    V = 0.5 * (W + W.transpose());
    V.diagonal().array() += preg;
  }
  return m;
}

EqQp eq_qp(const PSnap& p, const Traj& xs, const Traj& us, double preg, double dreg,
           const VectorXd& dx0, const Traj& fs) {
  EqQp o, od;
  for (int pass = 0; pass < 2; ++pass) {
    auto run = [&](auto tag, EqQp& r) {
      typedef decltype(tag) S;
      typedef Core<S> C;
      C c(p, xs, us);
      const int n = c.L.n;
      typename C::M H = c.H;
      c.add_reg(H, preg, dreg);
      if (!fs.empty())
        for (int t = 0; t < c.L.T; ++t)
          c.b.segment(t * n, n) = fs[static_cast<size_t>(t) + 1].template cast<S>();
      typename C::V x0 = C::V::Zero(n);
      if (dx0.size()) {
        // a given displacement of the first state moves what depends on it
        x0 = dx0.template cast<S>();
        const Ders& k = c.d[0];
        c.b.segment(0, n) += k.Fx.template cast<S>() * x0;
        c.g.segment(c.L.ou[0], k.Lu.size()) += k.Lxu.transpose().template cast<S>() * x0;
      }
      typename C::V rhs(c.L.nv + c.L.ne);
      rhs << -c.g, c.b;
      typename C::V s = c.kkt(H).partialPivLu().solve(rhs);
      c.unpack(pass ? c.riccati(H, c.g) : typename C::V(s.head(c.L.nv)), r.dx, r.du);
      r.dx[0] = x0.template cast<double>();
      // the sign: the constraint is dx' - F dx - .. = f, multiplier of the
      // next state enters stationarity with +F^T lag
      typename C::V nu = s.tail(c.L.ne);
      r.lag.assign(static_cast<size_t>(c.L.T) + 1, VectorXd::Zero(n));
      for (int t = 1; t <= c.L.T; ++t)
        r.lag[static_cast<size_t>(t)] = (-nu.segment((t - 1) * n, n)).template cast<double>();
      r.ok = all_finite(r.dx) && all_finite(r.du) && all_finite(r.lag);
    };
    if (pass == 0)
      run(0.0L, o);
    else
      run(0.0, od);
  }
  o.ok = o.ok && od.ok;
  if (o.ok)
    o.err = std::max(max_abs_diff(o.dx, od.dx) / (1 + max_abs(o.dx)),
                     std::max(max_abs_diff(o.du, od.du) / (1 + max_abs(o.du)),
                              max_abs_diff(o.lag, od.lag) / (1 + max_abs(o.lag))));
  return o;
}

double proxqp_residual(const PSnap& p, const Traj& xs, const Traj& us, const Cfg& cfg) {
  Core<double> c(p, xs, us);
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(c.H, Eigen::EigenvaluesOnly);
  if (!(es.eigenvalues().minCoeff() > -1e-9)) return -1;  // it is for convex ones
  proxsuite::proxqp::sparse::QP<double, long long> qp(c.L.nv, c.L.ne, c.nc);
  Eigen::SparseMatrix<double> H = c.H.sparseView(), A = c.A.sparseView(), G = c.G.sparseView();
  qp.init(H, c.g, A, c.b, G, c.lo, c.hi);
  qp.settings.eps_abs = cfg.get("eps_abs");
  qp.settings.eps_rel = cfg.get("eps_rel");
  qp.settings.max_iter = qp.settings.max_iter_in = static_cast<long>(cfg.get("max_qp"));
  qp.solve();
  // with room to spare: rounding must not decide
  const auto& i = qp.results.info;
  if (i.status != proxsuite::proxqp::QPSolverOutput::PROXQP_SOLVED || 2 * i.iter >= qp.settings.max_iter)
    return -1;
  return std::max(i.pri_res, i.dua_res);
}

QpRes qp_residual(const PSnap& p, const Traj& xs, const Traj& us, const Traj& dx, const Traj& du,
                  const Traj& lag, const Traj& y) {
  typedef Core<double> C;
  C c(p, xs, us);
  QpRes r;
  if (!all_finite(dx) || !all_finite(du) || !all_finite(lag) || !all_finite(y)) return r;
  C::V w = c.pack(dx, du), nu(c.L.ne), z(c.nc);
  for (int t = 1; t <= c.L.T; ++t)
    nu.segment((t - 1) * c.L.n, c.L.n) = -lag[static_cast<size_t>(t)];
  for (int t = 0; t <= c.L.T; ++t) {
    const size_t i = static_cast<size_t>(t);
    if (y[i].size() != p.spec[i]->ng()) return r;
    z.segment(c.oc[i], y[i].size()) = y[i];
  }
  C::V e = c.A * w - c.b, q = c.H * w + c.g + c.A.transpose() * nu + c.G.transpose() * z, v = c.G * w;
  r.scale = 1 + (c.A.cwiseAbs() * w.cwiseAbs()).lpNorm<Eigen::Infinity>() +
            (c.H.cwiseAbs() * w.cwiseAbs() + c.g.cwiseAbs() + c.A.cwiseAbs().transpose() * nu.cwiseAbs() +
             c.G.cwiseAbs().transpose() * z.cwiseAbs())
                .lpNorm<Eigen::Infinity>();
  if (e.size()) r.primal = e.lpNorm<Eigen::Infinity>();
  for (int j = 0; j < c.nc; ++j)
    r.primal = std::max(r.primal, std::max(c.lo[j] - v[j], v[j] - c.hi[j]));
  if (q.size()) r.dual = q.lpNorm<Eigen::Infinity>();
  r.ok = std::isfinite(r.primal) && std::isfinite(r.dual) && std::isfinite(r.scale);
  return r;
}
}  // namespace sim
