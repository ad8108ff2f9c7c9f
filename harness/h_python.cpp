// Y01, Y02, Y03: the Python bindings. Every worker embeds an interpreter of its own.
#include <Python.h>
#include <boost/python.hpp>
#include <boost/python/stl_iterator.hpp>

#include "pycanon.hpp"

namespace {
// ------------------------------------------------------------------ Y01: the scripts in py/ explore, mc.run() decides
struct PyMc {
  mc::Ctx* c;
  bool quick() const { return c->quick; }
  bool stopped() const { return c->stopped(); }
  std::string scratch() const { return c->scratch; }
  void step(int n) { c->step(mc::U64(n)); }
  void state(const std::string& s) { c->state(s); }
  void outcome(const std::string& s) { c->outcome(s); }
  void count(const std::string& s) { c->count(s); }
  void run(py::object desc, py::object body) {
    c->run(
        [&] {
          if (PyUnicode_Check(desc.ptr())) return std::string(py::extract<std::string>(desc));
          return std::string(py::extract<std::string>(py::str(desc())));
        },
        [&] {
          try {
            body();
          } catch (const py::error_already_set&) {
            throw failure();
          }
        });
  }
};
void script(mc::Ctx& c, const char* name) {
  Interpreter::start();
  try {
    py::import("ll2mc");
    py::object module = py::import(name);
    module.attr("explore")(py::object(PyMc{&c}));
  } catch (const py::error_already_set&) {
    throw std::runtime_error(failure().msg);
  }
}
}  // namespace
BOOST_PYTHON_MODULE(ll2mc) {
  py::class_<PyMc>("Mc", py::no_init)
      .add_property("quick", &PyMc::quick)
      .add_property("stopped", &PyMc::stopped)
      .add_property("scratch", &PyMc::scratch)
      .def("step", &PyMc::step)
      .def("state", &PyMc::state)
      .def("outcome", &PyMc::outcome)
      .def("count", &PyMc::count)
      .def("run", &PyMc::run);
}
void y02(mc::Ctx& c);
int main(int argc, char** argv) {
  PyImport_AppendInittab("ll2mc", PyInit_ll2mc);
  const std::string trust = "CPython 3.12 and Boost.Python work as documented";
  return mc::mainImpl(argc, argv,
                      {{"Y01", [](mc::Ctx& c) { script(c, "views"); },
                        "every sequence of Python operations up to the bound on a line string and its views, a polygon, an attribute map, a lanelet, an area, a map and the regulatory elements; after each "
                        "operation everything observable is compared with lists and dictionaries of plain Python objects; and every object that can be got out of another, used after the other is gone",
                        {trust}},
                       {"Y03", [](mc::Ctx& c) { script(c, "scripts"); },
                        "every script of the package on every combination of negative and positive ids of the kinds of elements, on every id asked for, and on small road networks for every participant and origin; "
                        "what is printed and written is compared with the description of the map",
                        {trust}},
                       {"Y02", y02,
                        "every bound function, every combination of arguments from the pools and every way to pass them (by position, by keyword, left out where it has its default) on small maps and road networks; "
                        "the result is compared with the C++ function called directly",
                        {trust}}});
}
