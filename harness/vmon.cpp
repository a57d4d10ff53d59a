/* A user-supplied boundary-function module that monitors the C++ movers.

   It uses /repo/cpp's UserParticleBoundaryFunctions class as it is, and puts its own functions into
   the object's name -> function map, as a user would.  Each function ("slot") logs the call it
   receives (name, species, facet, dx, fraction, normal, particle before and after) and then absorbs,
   reflects or passes the particle, as the harness configured that slot. */
#include <map>
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <cassert>
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <pybind11/operators.h>
#define private public
#include "UserParticleBoundaryFunctions.h"
#undef private

namespace py = pybind11;
namespace dnt {

int Pstruct<Ptype::PARTICLE_TYPE>::DELETE_FLAG = 0b1;

constexpr Ptype PT = Ptype::PARTICLE_TYPE;
using UPBF = UserParticleBoundaryFunctions<PT>;
using PS = Pstruct<PT>;

static const int NSLOTS = 24;
static int g_behaviour[NSLOTS];     // 0 absorb, 1 reflect, 2 nothing
static py::list *g_log = nullptr;

// coordinates of the record as doubles: [x.., x0.., u..]
static std::vector<double> phase(PS &p) {
  py::list l = p.as_list();
  std::vector<double> v;
  for (int i = 0; i < 3*PDIM; i++) v.push_back(l[i].cast<double>());
  return v;
}

static void handle(int slot, PS &p, py::str &sn, const int facet, const double *dx, const double frac,
                   py::array_t<double> &n)
{
  std::vector<double> before = phase(p), d, nn;
  for (int i = 0; i < PDIM; i++) d.push_back(dx[i]);
  auto np_ = n.unchecked<1>();
  for (py::ssize_t i = 0; i < n.size() && i < 3; i++) nn.push_back(np_(i));
  if (g_behaviour[slot] == 0)
    p.bitflags_ = p.bitflags_ | PS::DELETE_FLAG;
  else if (g_behaviour[slot] == 1) {
    double out[PDIM];
    for (int i = 0; i < PDIM; i++) out[i] = (1.0 - frac)*dx[i];
    p.reflect_from_surface(n, out);
  }
  g_log->append(py::make_tuple(slot, py::str(sn), facet, d, frac, nn, before, phase(p), p.unique_ID_, p.cell_index_));
}

struct Slots : public UPBF {
  template <int I>
  void fn(PS &p, py::str &sn, const int facet, const double dx[], const double frac, py::array_t<double> &n)
  { handle(I, p, sn, facet, dx, frac, n); }
};

using FP = void (UPBF::*)(PS&, py::str&, const int, const double *, const double, py::array_t<double>&);

template <int I> struct Fill { static void go(std::vector<FP> &v) { Fill<I-1>::go(v); v.push_back(static_cast<FP>(&Slots::template fn<I-1>)); } };
template <> struct Fill<0> { static void go(std::vector<FP> &) {} };

static UPBF make(py::list coords, std::map<std::string, std::pair<int,int>> table)
{
  UPBF u(coords);
  std::vector<FP> fps; Fill<NSLOTS>::go(fps);
  u.bc_function_map.clear();
  for (auto &kv : table) {
    u.bc_function_map[kv.first] = fps.at(kv.second.first);
    g_behaviour[kv.second.first] = kv.second.second;
  }
  return u;
}

PYBIND11_MODULE(MODULE_NAME, m) {
  g_log = new py::list();
  py::class_<UPBF>(m, "UserParticleBoundaryFunctions", py::module_local())
    .def(py::init<py::list&>());
  m.def("make", &make);
  m.def("take_log", []() { py::list l = *g_log; *g_log = py::list(); return l; });
}
}
