// C36: the Python module offers the C++ quantity of each name
#include <numpy_eigen/boost_python_headers.hpp>
#include <boost/weak_ptr.hpp>
#include "est.hpp"
#include <boost/python/suite/indexing/vector_indexing_suite.hpp>
namespace bp = boost::python;
using namespace est;

extern "C" PyObject* PyInit_libincremental_calibration_python();

// matrices cross as lists of rows, vectors as lists of numbers
template <typename M> struct ToList {
  static PyObject* convert(const M& m) {
    bp::list rows;
    for (int r = 0; r < m.rows(); ++r) {
      if (M::ColsAtCompileTime == 1) { rows.append((double)m(r, 0)); continue; }
      bp::list row;
      for (int c = 0; c < m.cols(); ++c) row.append((double)m(r, c));
      rows.append(row);
    }
    return bp::incref(bp::make_tuple((long)m.rows(), (long)m.cols(), rows).ptr());
  }
};
template <typename M> static M fromTuple(const bp::object& o) {
  const long r = bp::extract<long>(o[0]), c = bp::extract<long>(o[1]);
  M m(r, c);
  for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) m(i, j) = M::ColsAtCompileTime == 1 ? bp::extract<double>(o[2][i])() : bp::extract<double>(o[2][i][j])();
  return m;
}
template <typename M> struct FromList {
  FromList() { bp::converter::registry::push_back(&can, &make, bp::type_id<M>()); }
  static void* can(PyObject* p) { return PyTuple_Check(p) && PyTuple_Size(p) == 3 ? p : nullptr; }
  static void make(PyObject* p, bp::converter::rvalue_from_python_stage1_data* d) {
    void* at = ((bp::converter::rvalue_from_python_storage<M>*)d)->storage.bytes;
    new (at) M(fromTuple<M>(bp::object(bp::handle<>(bp::borrowed(p)))));
    d->convertible = at;
  }
};
typedef ab::CompressedColumnMatrix<std::ptrdiff_t> CCM;
BOOST_PYTHON_MODULE(base) {
  bp::class_<ab::LinearSystemSolver, boost::noncopyable>("LinearSystemSolver", bp::no_init);
  bp::class_<ab::OptimizationProblemBase, boost::noncopyable>("OptimizationProblemBase", bp::no_init);
  bp::class_<ab::DesignVariable, boost::shared_ptr<ab::DesignVariable>, boost::noncopyable>("DesignVariable", bp::no_init);
  bp::class_<ab::ErrorTerm, boost::shared_ptr<ab::ErrorTerm>, boost::noncopyable>("ErrorTerm", bp::no_init);
  bp::class_<CCM>("Matrix").def("dense", &CCM::toDense);
  bp::class_<sm::PropertyTree>("PropertyTree", bp::no_init);
  bp::class_<ab::Optimizer2Options>("OptimizerOptions").def_readwrite("maxIterations", &ab::Optimizer2Options::maxIterations)
    .def_readwrite("convergenceDeltaJ", &ab::Optimizer2Options::convergenceDeltaJ).def_readwrite("convergenceDeltaX", &ab::Optimizer2Options::convergenceDeltaX);
  bp::to_python_converter<Eigen::MatrixXd, ToList<Eigen::MatrixXd> >();
  bp::to_python_converter<Eigen::VectorXd, ToList<Eigen::VectorXd> >();
  FromList<Eigen::MatrixXd>(); FromList<Eigen::VectorXd>();
}
static bp::object& module() {
  static bp::object* m = nullptr;
  if (!m) {
    setenv("PYTHONMALLOC", "malloc", 1);  // so that a dangling object is seen
    PyImport_AppendInittab("base", &PyInit_base);
    PyImport_AppendInittab("libincremental_calibration_python", &PyInit_libincremental_calibration_python);
    PyConfig c; PyConfig_InitIsolatedConfig(&c); c.site_import = 0; c.install_signal_handlers = 0;
    Py_InitializeFromConfig(&c); PyConfig_Clear(&c);
    bp::import("base");
    m = new bp::object(bp::import("libincremental_calibration_python"));
  }
  return *m;
}
static std::string pyError() {
  PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
  bp::handle<> ht(bp::allow_null(t)), hv(bp::allow_null(v)), hb(bp::allow_null(b));
  return v ? bp::extract<std::string>(bp::str(bp::object(hv)))() : "?";
}
// runs f; errors of Python are failures
template <typename F> static void inPython(F f) { module(); try { f(); } catch (const bp::error_already_set&) { VFAIL("error in Python: " << pyError()); } }
template <typename F> static bool refusedByPython(F f) { try { f(); return false; } catch (const bp::error_already_set&) { pyError(); return true; } }
static bp::object attr(const bp::object& o, const char* n) { return o.attr(n); }
template <typename T> static T get(const bp::object& o, const char* n) { return bp::extract<T>(o.attr(n))(); }
static Eigen::MatrixXd mat(const bp::object& o) { return fromTuple<Eigen::MatrixXd>(o); }
static Eigen::MatrixXd vec(const bp::object& o) { return fromTuple<Eigen::VectorXd>(o); }
static bp::object pack(const Eigen::MatrixXd& m) { return bp::object(m); }

#define REAL_FIELD(T, n) VEQ(get<double>(py, #n), (double)c.n, "reading " #n)
#define MAT_FIELD(n) VCHECK(same(mat(py.attr(#n)), c.n), "reading " #n)
#define VEC_FIELD(n) VCHECK(same(vec(py.attr(#n)), c.n), "reading " #n)
static void compareReturn(const bp::object& py, const Ret& c, bool time) {
  VEQ(get<bool>(py, "batchAccepted"), c.batchAccepted, "batchAccepted");
  REAL_FIELD(double, informationGain); REAL_FIELD(double, rankPsi); REAL_FIELD(double, rankPsiDeficiency); REAL_FIELD(double, rankTheta); REAL_FIELD(double, rankThetaDeficiency);
  REAL_FIELD(double, svdTolerance); REAL_FIELD(double, qrTolerance); REAL_FIELD(double, numIterations); REAL_FIELD(double, JStart); REAL_FIELD(double, JFinal);
  if (time) REAL_FIELD(double, elapsedTime);
  MAT_FIELD(nobsBasis); MAT_FIELD(nobsBasisScaled); MAT_FIELD(obsBasis); MAT_FIELD(obsBasisScaled);
  MAT_FIELD(sigma2Theta); MAT_FIELD(sigma2ThetaScaled); MAT_FIELD(sigma2ThetaObs); MAT_FIELD(sigma2ThetaObsScaled);
  VEC_FIELD(singularValues); VEC_FIELD(singularValuesScaled);
}

CLAUSE(return_value, 3000, 40000, "fields were set from Python and from C++") {
  inPython([&] {
    bp::object py = module().attr("IncrementalEstimatorReturnValue")();
    Ret& r = bp::extract<Ret&>(py)();
    Ret c;
    double k = 1 + (double)s.range(0, 50);
    auto num = [&] { return k += 1 + (double)s.range(0, 3); };
    auto m = [&] { int a = 1 + (int)s.index(3), b = 1 + (int)s.index(3); Eigen::MatrixXd x(a, b); for (int i = 0; i < x.size(); ++i) x(i) = num(); return x; };
    c.batchAccepted = s.flip();
    c.informationGain = num(); c.rankPsi = num(); c.rankPsiDeficiency = num(); c.rankTheta = num(); c.rankThetaDeficiency = num(); c.svdTolerance = num(); c.qrTolerance = num();
    c.nobsBasis = m(); c.nobsBasisScaled = m(); c.obsBasis = m(); c.obsBasisScaled = m(); c.sigma2Theta = m(); c.sigma2ThetaScaled = m(); c.sigma2ThetaObs = m(); c.sigma2ThetaObsScaled = m();
    c.singularValues = m().col(0); c.singularValuesScaled = m().col(0); c.numIterations = num(); c.JStart = num(); c.JFinal = num(); c.elapsedTime = num();
    r = c;
    compareReturn(py, c, true);
    // and back: one field changed from Python changes that member only
    int n = (int)s.index(22);
    double v = num(); Eigen::MatrixXd x = m();
    s.desc() << "field " << n << "\n";
#define SET_NUM(i, f) if (n == i) { c.f = v; py.attr(#f) = v; }
#define SET_INT(i, f) if (n == i) { c.f = v; py.attr(#f) = (long)v; }
#define SET_MAT(i, f) if (n == i) { c.f = x; py.attr(#f) = pack(x); }
    if (n == 0) { c.batchAccepted = !c.batchAccepted; py.attr("batchAccepted") = c.batchAccepted; }
    SET_NUM(1, informationGain) SET_INT(2, rankPsi) SET_INT(3, rankPsiDeficiency) SET_INT(4, rankTheta) SET_INT(5, rankThetaDeficiency) SET_NUM(6, svdTolerance) SET_NUM(7, qrTolerance)
    SET_MAT(8, nobsBasis) SET_MAT(9, nobsBasisScaled) SET_MAT(10, obsBasis) SET_MAT(11, obsBasisScaled) SET_MAT(12, sigma2Theta) SET_MAT(13, sigma2ThetaScaled) SET_MAT(14, sigma2ThetaObs) SET_MAT(15, sigma2ThetaObsScaled)
    if (n == 16) { c.singularValues = x.col(0); py.attr("singularValues") = bp::object(Eigen::VectorXd(x.col(0))); }
    if (n == 17) { c.singularValuesScaled = x.col(0); py.attr("singularValuesScaled") = bp::object(Eigen::VectorXd(x.col(0))); }
    SET_INT(18, numIterations) SET_NUM(19, JStart) SET_NUM(20, JFinal) SET_NUM(21, elapsedTime)
    compareReturn(py, c, true);
    compareReturn(py, r, true);
    s.nontrivial();
  });
}

// options, given at construction or changed through the estimator
static bp::object makeEstimator(vpt::Src& s, size_t marg, Est::Options& o, ac::LinearSolverOptions& l, Est::OptimizerOptions& p, bool& defaults) {
  defaults = s.chance(1, 4);
  bp::object& m = module();
  bp::object po = m.attr("IncrementalEstimatorOptions")(), pl = m.attr("LinearSolverOptions")(), pp = bp::import("base").attr("OptimizerOptions")();
  VEQ(get<double>(po, "infoGainDelta"), o.infoGainDelta, "default"); VEQ(get<bool>(po, "checkValidity"), o.checkValidity, "default"); VEQ(get<bool>(po, "verbose"), o.verbose, "default");
  VEQ(get<bool>(pl, "columnScaling"), l.columnScaling, "default"); VEQ(get<double>(pl, "svdTol"), l.svdTol, "default"); VEQ(get<double>(pl, "epsQR"), l.epsQR, "default");
  if (defaults) return m.attr("IncrementalEstimator")(marg);
  auto d = [&](const bp::object& py, const char* n, double& v, std::initializer_list<double> vals) { if (s.flip()) { v = *(vals.begin() + s.index(vals.size())); attr(py, n); bp::setattr(py, n, bp::object(v)); } };
  auto b = [&](const bp::object& py, const char* n, bool& v) { if (s.flip()) { v = s.flip(); bp::setattr(py, n, bp::object(v)); } };
  d(po, "infoGainDelta", o.infoGainDelta, {0.7, 0.0, -3.0, 1e6}); b(po, "checkValidity", o.checkValidity); if (s.chance(1, 8)) b(po, "verbose", o.verbose);
  b(pl, "columnScaling", l.columnScaling); d(pl, "epsNorm", l.epsNorm, {1e-13, 3e-12}); d(pl, "epsSVD", l.epsSVD, {1e-12, 1e-10}); d(pl, "epsQR", l.epsQR, {1e-11, 1e-12});
  d(pl, "svdTol", l.svdTol, {1e-6, 1e-3, 0.5}); d(pl, "qrTol", l.qrTol, {1e-9, 1e-6});
  if (s.chance(1, 8)) b(pl, "verbose", l.verbose);
  if (s.flip()) { p.maxIterations = (int)s.index(9); pp.attr("maxIterations") = p.maxIterations; }
  d(pp, "convergenceDeltaJ", p.convergenceDeltaJ, {1e-5, 1e-9});
  return m.attr("IncrementalEstimator")(marg, po, pl, pp);
}
static void checkOptions(const Est& e, const Est::Options& o, const ac::LinearSolverOptions& l, const Est::OptimizerOptions& p, const std::string& at) {
  VEQ(e.getOptions().infoGainDelta, o.infoGainDelta, at); VEQ(e.getOptions().checkValidity, o.checkValidity, at); VEQ(e.getOptions().verbose, o.verbose, at);
  const ac::LinearSolverOptions& a = e.getLinearSolverOptions();
  VEQ(a.columnScaling, l.columnScaling, at); VEQ(a.epsNorm, l.epsNorm, at); VEQ(a.epsSVD, l.epsSVD, at); VEQ(a.epsQR, l.epsQR, at); VEQ(a.svdTol, l.svdTol, at); VEQ(a.qrTol, l.qrTol, at); VEQ(a.verbose, l.verbose, at);
  VEQ(e.getOptimizerOptions().maxIterations, p.maxIterations, at); VEQ(e.getOptimizerOptions().convergenceDeltaJ, p.convergenceDeltaJ, at);
}
CLAUSE(options, 2000, 30000, "options were given to the constructor and changed later") {
  inPython([&] {
    size_t marg = s.index(5);
    Est::Options o; ac::LinearSolverOptions l; Est::OptimizerOptions p; bool defaults;
    bp::object py = makeEstimator(s, marg, o, l, p, defaults);
    {
      Est& e = bp::extract<Est&>(py)();
      checkOptions(e, o, l, p, "constructed");
      VEQ(bp::extract<size_t>(py.attr("getMargGroupId")())(), marg, "group");
      VEQ(e.getMargGroupId(), marg, "group");
    }
    // the references stay usable when the estimator is dropped
    bp::object po = py.attr("getOptions")(), pl = py.attr("getLinearSolverOptions")(), pp = py.attr("getOptimizerOptions")();
    bool dropped = s.flip();
    Est* e = &bp::extract<Est&>(py)();
    if (dropped) py = bp::object();
    o.infoGainDelta = 12.5; po.attr("infoGainDelta") = 12.5; o.checkValidity = !o.checkValidity; po.attr("checkValidity") = o.checkValidity;
    l.svdTol = 0.125; pl.attr("svdTol") = 0.125; l.qrTol = 0.375; pl.attr("qrTol") = 0.375; l.epsNorm = 3e-7; pl.attr("epsNorm") = 3e-7; l.epsQR = 5e-7; pl.attr("epsQR") = 5e-7; l.epsSVD = 7e-7; pl.attr("epsSVD") = 7e-7;
    l.columnScaling = !l.columnScaling; pl.attr("columnScaling") = l.columnScaling;
    p.maxIterations = 3; pp.attr("maxIterations") = 3;
    checkOptions(*e, o, l, p, dropped ? "changed through references alone" : "changed");
    // the solver on its own
    bp::object solver = s.flip() ? module().attr("LinearSolver")(pl) : bp::object();
    if (!solver.is_none()) {
      bp::object so = solver.attr("getOptions")();
      solver = bp::object();
      VEQ(get<double>(so, "svdTol"), 0.125, "solver"); VEQ(get<double>(so, "qrTol"), 0.375, "solver"); VEQ(get<double>(so, "epsNorm"), 3e-7, "solver"); VEQ(get<double>(so, "epsSVD"), 7e-7, "solver");
      VEQ(get<double>(so, "epsQR"), 5e-7, "solver"); VEQ(get<bool>(so, "columnScaling"), l.columnScaling, "solver"); VEQ(get<bool>(so, "verbose"), l.verbose, "solver");
    } else {
      sm::PropertyTree t; t.setDouble("svdTol", 0.25); t.setBool("columnScaling", true); t.setDouble("epsSVD", 2e-9);
      bp::object so = module().attr("LinearSolver")(bp::object(t)).attr("getOptions")();
      VEQ(get<double>(so, "svdTol"), 0.25, "solver of a property tree"); VEQ(get<bool>(so, "columnScaling"), true, "solver of a property tree"); VEQ(get<double>(so, "epsSVD"), 2e-9, "solver of a property tree");
    }
    s.nontrivial(!defaults);
  });
}

static void compareGetters(const bp::object& py, const Est& e) {
  auto num = [&](const char* n) { return bp::extract<double>(py.attr(n)())(); };
  auto m = [&](const char* n) { return mat(py.attr(n)()); };
  VEQ(num("getNumBatches"), (double)e.getNumBatches(), "getNumBatches"); VEQ(num("getMargGroupId"), (double)e.getMargGroupId(), "getMargGroupId");
  VEQ(num("getInformationGain"), e.getInformationGain(), "getInformationGain");
  VEQ(num("getRankPsi"), (double)e.getRankPsi(), "getRankPsi"); VEQ(num("getRankPsiDeficiency"), (double)e.getRankPsiDeficiency(), "getRankPsiDeficiency");
  VEQ(num("getRankTheta"), (double)e.getRankTheta(), "getRankTheta"); VEQ(num("getRankThetaDeficiency"), (double)e.getRankThetaDeficiency(), "getRankThetaDeficiency");
  VEQ(num("getSVDTolerance"), e.getSVDTolerance(), "getSVDTolerance"); VEQ(num("getQRTolerance"), e.getQRTolerance(), "getQRTolerance");
  VEQ(num("getPeakMemoryUsage"), (double)e.getPeakMemoryUsage(), "getPeakMemoryUsage"); VEQ(num("getMemoryUsage"), (double)e.getMemoryUsage(), "getMemoryUsage"); VEQ(num("getNumFlops"), e.getNumFlops(), "getNumFlops");
  VCHECK(same(m("getNobsBasis"), e.getNobsBasis()), "getNobsBasis"); VCHECK(same(m("getNobsBasisScaled"), e.getNobsBasis(true)), "getNobsBasisScaled");
  VCHECK(same(m("getObsBasis"), e.getObsBasis()), "getObsBasis"); VCHECK(same(m("getObsBasisScaled"), e.getObsBasis(true)), "getObsBasisScaled");
  VCHECK(same(m("getSigma2Theta"), e.getSigma2Theta()), "getSigma2Theta"); VCHECK(same(m("getSigma2ThetaScaled"), e.getSigma2Theta(true)), "getSigma2ThetaScaled");
  VCHECK(same(m("getSigma2ThetaObs"), e.getSigma2ThetaObs()), "getSigma2ThetaObs"); VCHECK(same(m("getSigma2ThetaObsScaled"), e.getSigma2ThetaObs(true)), "getSigma2ThetaObsScaled");
  VCHECK(same(m("getSingularValues"), e.getSingularValues()), "getSingularValues"); VCHECK(same(m("getScaledSingularValues"), e.getSingularValues(true)), "getScaledSingularValues");
  VCHECK(same(mat(py.attr("getJacobianTranspose")().attr("dense")()), e.getJacobianTranspose().toDense()), "getJacobianTranspose");
}

// an estimator driven from Python does what one driven from C++ does, batch by batch
CLAUSE(estimator, 2500, 30000, "batches were accepted and removed, with scaled statistics") {
  inPython([&] {
    Cfg cfg; cfg.linear = true; cfg.maxBatches = 4;
    World w = makeWorld(s, cfg);
    Inst a = instantiate(w), b = instantiate(w);
    bool scaling = s.flip();
    Est::Options o; o.infoGainDelta = s.flip() ? -1e18 : 0.5;
    ac::LinearSolverOptions l = solverOptions(scaling);
    Est::OptimizerOptions p = optimizerOptions(5);
    bp::object& m = module();
    bp::object po = m.attr("IncrementalEstimatorOptions")(); po.attr("infoGainDelta") = o.infoGainDelta;
    bp::object pl = m.attr("LinearSolverOptions")(); pl.attr("columnScaling") = scaling; pl.attr("epsSVD") = l.epsSVD; pl.attr("epsQR") = l.epsQR;
    bp::object pp = bp::import("base").attr("OptimizerOptions")(); pp.attr("maxIterations") = p.maxIterations; pp.attr("convergenceDeltaJ") = p.convergenceDeltaJ; pp.attr("convergenceDeltaX") = p.convergenceDeltaX;
    bp::object py = m.attr("IncrementalEstimator")(w.marg, po, pl, pp);
    Est& pe = bp::extract<Est&>(py)();
    Est twin(w.marg, o, l, p);
    std::vector<size_t> held;
    bool accepted = false, removed = false;
    std::vector<bp::object> pb;
    for (auto& x : a.batches) pb.push_back(bp::object(x));
    for (size_t step = 0, n = 1 + s.index(5); step < n; ++step) {
      int op = held.empty() ? 0 : (int)s.index(4);
      bool pt = false, ct = false;
      bp::object pr; Ret cr;
      bool hasRet = false;
      if (op <= 1) {
        size_t i = s.index(w.batches.size());
        if (std::count(held.begin(), held.end(), i)) continue;
        bool force = s.chance(1, 3);
        s.desc() << "add " << i << " force=" << force << "; ";
        pt = refusedByPython([&] { pr = py.attr("addBatch")(pb[i], force); });
        try { cr = twin.addBatch(b.batches[i], force); } catch (const std::exception&) { ct = true; }
        hasRet = true;
        if (!pt && !ct && cr.batchAccepted) { held.push_back(i); accepted = true; }
      } else if (op == 2) {
        size_t k = s.index(held.size() + 1);
        s.desc() << "remove #" << k << "; ";
        bool byBatch = s.flip() && k < held.size();
        pt = refusedByPython([&] { if (byBatch) py.attr("removeBatch")(pb[held[k]]); else py.attr("removeBatch")(k); });
        try { if (byBatch) twin.removeBatch(b.batches[held[k]]); else twin.removeBatch(k); } catch (const std::exception&) { ct = true; }
        if (!pt && !ct) { held.erase(held.begin() + k); removed = true; }
      } else {
        s.desc() << "reoptimize; ";
        pt = refusedByPython([&] { pr = py.attr("reoptimize")(); });
        try { cr = twin.reoptimize(); } catch (const std::exception&) { ct = true; }
        hasRet = true;
      }
      VEQ(pt, ct, "refused at step " << step);
      VEQ(pe.getNumBatches(), twin.getNumBatches(), "batches at step " << step);
      if (pt) continue;
      if (hasRet) compareReturn(pr, cr, false);
      compareGetters(py, pe);
      sameStats(snap(pe), snap(twin), "at step " + std::to_string(step));
      auto va = values(a), vb = values(b);
      for (size_t i = 0; i < va.size(); ++i) VCHECK(same(va[i], vb[i]), "variable " << i);
      // the problem behind it
      bp::object pq = py.attr("getProblem")();
      VEQ(bp::extract<size_t>(pq.attr("getNumOptimizationProblems")())(), held.size(), "batches of the problem");
      for (size_t k = 0; k < held.size(); ++k) VCHECK(&bp::extract<Batch&>(pq.attr("getOptimizationProblem")(k))() == a.batches[held[k]].get(), "batch " << k << " of the problem");
    }
    s.nontrivial(accepted && removed && scaling);
  });
}

// problems built from Python hold what was put in
CLAUSE(problems, 2500, 30000, "problems were filled, merged, removed and cleared") {
  inPython([&] {
    bp::object& m = module();
    bp::object inc = m.attr("IncrementalOptimizationProblem")();
    std::vector<boost::shared_ptr<ab::DesignVariable> > vars;
    for (int i = 0; i < 4; ++i) vars.push_back(boost::make_shared<Var>(1 + (int)s.index(3), i));
    struct M { bp::object py; boost::shared_ptr<ac::OptimizationProblem> c; std::vector<std::pair<size_t, size_t> > dv; size_t terms; };
    std::vector<M> model;
    for (size_t k = 0, n = 1 + s.index(3); k < n; ++k) {
      M x; x.py = m.attr("CalibrationOptimizationProblem")(); x.terms = 0;
      x.c = bp::extract<boost::shared_ptr<ac::OptimizationProblem> >(x.py)();
      for (size_t i = 0; i < vars.size(); ++i) if (s.flip()) { size_t g = i % 2 ? 3 : 5; x.py.attr("addDesignVariable")(vars[i], g); x.dv.push_back({i, g}); }
      if (!x.dv.empty()) for (size_t t = s.index(3); t--;) { x.py.attr("addErrorTerm")(boost::shared_ptr<ab::ErrorTerm>(boost::make_shared<Touch>(std::vector<ab::DesignVariable*>{vars[x.dv[s.index(x.dv.size())].first].get()}))); x.terms++; }
      if (!x.dv.empty() && s.chance(1, 3)) VCHECK(refusedByPython([&] { x.py.attr("addDesignVariable")(vars[x.dv[0].first], (size_t)x.dv[0].second); }), "a variable added twice");
      if (s.chance(1, 6)) { x.py.attr("clear")(); x.dv.clear(); x.terms = 0; }
      model.push_back(x);
    }
    auto check = [&](const M& x, const std::string& at) {
      VEQ(x.c->numDesignVariables(), x.dv.size(), at); VEQ(x.c->numErrorTerms(), x.terms, at);
      for (auto& d : x.dv) { VCHECK(x.c->isDesignVariableInProblem(vars[d.first].get()), at); VEQ(x.c->getGroupId(vars[d.first].get()), d.second, at); }
    };
    for (auto& x : model) check(x, "filled from Python");
    ac::IncrementalOptimizationProblem& ci = bp::extract<ac::IncrementalOptimizationProblem&>(inc)();
    std::vector<size_t> held;
    for (size_t step = 0, n = s.index(7); step < n; ++step) {
      int op = (int)s.index(5);
      if (op <= 2) { size_t k = s.index(model.size()); bool dup = std::count(held.begin(), held.end(), k) && model[k].terms; if (std::count(held.begin(), held.end(), k) && !dup) continue; bool refused = refusedByPython([&] { inc.attr("add")(model[k].py); }); VEQ(refused, dup, "merging batch " << k); if (!refused) held.push_back(k); }
      else if (op == 3) { size_t k = s.index(held.size() + 1); VEQ(refusedByPython([&] { inc.attr("remove")(k); }), k >= held.size(), "removing batch " << k); if (k < held.size()) held.erase(held.begin() + k); }
      else { inc.attr("clear")(); held.clear(); }
      VEQ(bp::extract<size_t>(inc.attr("getNumOptimizationProblems")())(), held.size(), "number of batches");
      VEQ(ci.getNumOptimizationProblems(), held.size(), "number of batches");
      size_t terms = 0;
      for (size_t k = 0; k < held.size(); ++k) { VCHECK(&bp::extract<Batch&>(inc.attr("getOptimizationProblem")(k))() == model[held[k]].c.get(), "batch " << k); terms += model[held[k]].terms; }
      VEQ(ci.numErrorTerms(), terms, "error terms");
    }
    // batches live as long as something holds them
    std::vector<boost::weak_ptr<ab::DesignVariable> > weak;
    for (auto& x : model) {
      boost::shared_ptr<ab::DesignVariable> own = boost::make_shared<Var>(1, 99);  // owned by the batch alone
      x.py.attr("addDesignVariable")(own, (size_t)77);
      weak.emplace_back(own);
      x.c.reset(); x.py = bp::object();
    }
    for (size_t k = 0; k < weak.size(); ++k) VEQ(!weak[k].expired(), std::count(held.begin(), held.end(), k) > 0, "batch " << k << " alive");
    s.nontrivial(!held.empty());
  });
}
