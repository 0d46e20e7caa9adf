#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
namespace py = pybind11;
using namespace py::literals;
struct P { int x = 3; P(int a):x(a){} P():x(1){} int get(int k) const {return x+k;} int get(double) {return -1;} static int st(int a){return a*2;} };
PYBIND11_MODULE(pm_probe, m) {
    m.doc() = "hello";
    m.attr("__version__") = "1.0";
    m.def("sum", [](py::list l){ long s=0; for (py::handle h : l) s += h.cast<long>(); return s; });
    m.def("sum2", [](const py::iterable &l){ long s=0; for (auto h : l) s += py::cast<long>(h); return s; }, py::arg("l"), "docs");
    m.def("dict", [](py::dict d){ py::list out; for (auto kv : d) { out.append(py::make_tuple(kv.first, kv.second)); } return out; });
    m.def("dict2", [](py::dict d){ py::list out; for (auto [k, v] : d) { out.append(py::str(k)); out.append(v); } return py::tuple(out); });
    m.def("mk", [](){ py::dict d; d["a"]=1; d["b"]=py::none(); d["c"]=py::str("x"); d["e"]=py::array_t<double>(3); d[py::int_(4)] = py::float_(2.5); return d; });
    m.def("arr", [](py::array_t<uint8_t, py::array::c_style | py::array::forcecast> a){ auto r=a.unchecked<1>(); py::array_t<int> o({(size_t)r.shape(0), (size_t)2}); auto w=o.mutable_unchecked<2>(); for (py::ssize_t i=0;i<r.shape(0);i++){ w(i,0)=r(i); w(i,1)=a.at(i)+1;} o.mutable_at(0,0)=99; return o; });
    m.def("vec", [](const std::vector<uint8_t>& v){ return py::array_t<uint8_t>(v.size(), v.data()); });
    m.def("vec2", [](const std::vector<uint8_t>& v){ return py::array(py::cast(v)); });
    m.def("opt", [](std::optional<int> a){ if (!a.has_value()) throw py::value_error("none"); return *a; }, py::arg("a") = py::none());
    m.def("nogil", [](int a){ py::gil_scoped_release g; return a+1; }, py::call_guard<py::gil_scoped_release>());
    m.def("isi", [](py::object o){ return std::make_tuple(py::isinstance<py::list>(o), py::isinstance<py::array_t<double>>(o), py::isinstance<P>(o), py::isinstance<py::int_>(o), py::len(py::make_tuple(1,2)), py::hasattr(o,"shape")); });
    m.def("l", [](size_t n){ py::list l(n); for (size_t i=0;i<n;i++) l[i]=i; py::tuple t = py::tuple(l); return t; });
    m.def("set", [](std::set<size_t> s){ std::map<std::string,std::vector<size_t>> m; m["x"]={s.begin(), s.end()}; return m; });
    m.def("np", [](py::object a){ auto np = py::module_::import("numpy"); py::object r = np.attr("asarray")(a, "dtype"_a = np.attr("uint8")); return r.attr("sum")().cast<int>(); });
    m.def("np2", [](py::object a){ py::array_t<int64_t> z = py::module::import("numpy").attr("zeros")(4); std::string s = py::str(a.attr("shape")); return py::make_tuple(z, s, a.attr("shape").cast<std::vector<int>>()); });
    py::class_<P>(m, "P", "doc").def(py::init<>()).def(py::init<int>(), py::arg("x")).def(py::init([](std::string s){ return P((int)s.size()); }))
      .def("get", static_cast<int (P::*)(int) const>(&P::get), "k"_a, py::return_value_policy::copy)
      .def("g2", py::overload_cast<double>(&P::get)).def("g3", py::overload_cast<int>(&P::get, py::const_))
      .def_readwrite("x", &P::x).def_property_readonly("y", [](const P& p){return p.x*2;}).def_static("st", &P::st)
      .def("__repr__", [](const P& p){ return "P(" + std::to_string(p.x) + ")"; });
    m.def("mkp", [](int a){ return P(a); });
    m.def("mkpp", [](int a){ return std::make_unique<P>(a); });
    m.def("cap", [](){ auto* v = new std::vector<double>{1,2,3}; py::capsule c(v, [](void* q){ delete reinterpret_cast<std::vector<double>*>(q); }); return py::array_t<double>({3}, v->data(), c); });
    m.def("ke", [](int a){ if (a) throw py::key_error("k"); throw std::runtime_error("r"); });
    m.def("buf", [](py::array_t<double> a){ py::buffer_info b = a.request(); double s=0; auto* p=static_cast<double*>(b.ptr); for (py::ssize_t i=0;i<b.shape[0];i++) s+=p[i]; return s; });
}
