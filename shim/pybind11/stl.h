#pragma once
#include <array>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "pybind11/pybind11.h"

namespace pybind11 {

template <typename K, typename S>
struct set_caster {
    S v;
    bool load(handle h, bool convert) {
        if (!PyAnySet_Check(h.ptr()))
            return false;
        v.clear();
        object it(PyObject_GetIter(h.ptr()), object::steal_t{});
        while (PyObject* e = PyIter_Next(it.ptr())) {
            object eo(e, object::steal_t{});
            caster<K> c;
            if (!c.load(eo, convert))
                return false;
            v.insert(c.get());
        }
        return true;
    }
    S& get() {
        return v;
    }
    static PyObject* cast(const S& s) {
        PyObject* r = PySet_New(nullptr);
        for (auto& x : s) {
            object o = pybind11::cast(x);
            PySet_Add(r, o.ptr());
        }
        return r;
    }
};
template <typename K>
struct caster<std::set<K>> : set_caster<K, std::set<K>> {};
template <typename K>
struct caster<std::unordered_set<K>> : set_caster<K, std::unordered_set<K>> {};

template <typename T, typename Seq>
struct seq_caster {
    Seq v;
    bool load(handle h, bool convert) {
        if (!PySequence_Check(h.ptr()) || PyBytes_Check(h.ptr()) || PyUnicode_Check(h.ptr()))
            return false;
        v.clear();
        Py_ssize_t n = PySequence_Size(h.ptr());
        for (Py_ssize_t i = 0; i < n; i++) {
            object e(PySequence_GetItem(h.ptr(), i), object::steal_t{});
            caster<T> c;
            if (!e || !c.load(e, convert))
                return false;
            v.push_back(c.get());
        }
        return true;
    }
    Seq& get() {
        return v;
    }
    static PyObject* cast(const Seq& s) {
        PyObject* r = PyList_New(0);
        for (const auto& x : s) {
            object o = pybind11::cast((T)x);
            PyList_Append(r, o.ptr());
        }
        return r;
    }
};
template <typename T>
struct caster<std::vector<T>> : seq_caster<T, std::vector<T>> {};
template <typename T>
struct caster<std::list<T>> : seq_caster<T, std::list<T>> {};

template <typename A, typename B>
struct caster<std::pair<A, B>> {
    std::pair<A, B> v;
    bool load(handle h, bool convert) {
        if (!PySequence_Check(h.ptr()) || PySequence_Size(h.ptr()) != 2)
            return false;
        object a(PySequence_GetItem(h.ptr(), 0), object::steal_t{}), b(PySequence_GetItem(h.ptr(), 1), object::steal_t{});
        caster<A> ca;
        caster<B> cb;
        if (!ca.load(a, convert) || !cb.load(b, convert))
            return false;
        v = {ca.get(), cb.get()};
        return true;
    }
    std::pair<A, B>& get() {
        return v;
    }
    static PyObject* cast(const std::pair<A, B>& p) {
        return make_tuple(p.first, p.second).release();
    }
};

template <typename... A>
struct caster<std::tuple<A...>> {
    static PyObject* cast(const std::tuple<A...>& p) {
        return std::apply(
                   [](const auto&... x) {
                       return make_tuple(x...);
                   },
                   p)
            .release();
    }
};

template <typename T>
struct caster<std::optional<T>> {
    std::optional<T> v;
    bool load(handle h, bool convert) {
        if (h.is_none()) {
            v.reset();
            return true;
        }
        caster<T> c;
        if (!c.load(h, convert))
            return false;
        v = c.get();
        return true;
    }
    std::optional<T>& get() {
        return v;
    }
    static PyObject* cast(const std::optional<T>& o) {
        if (!o)
            Py_RETURN_NONE;
        return pybind11::cast(*o).release();
    }
};

template <typename T>
struct caster<std::deque<T>> : seq_caster<T, std::deque<T>> {};
template <typename T, size_t N>
struct caster<std::array<T, N>> {
    std::array<T, N> v;
    bool load(handle h, bool convert) {
        caster<std::vector<T>> c;
        if (!c.load(h, convert) || c.get().size() != N)
            return false;
        std::copy(c.get().begin(), c.get().end(), v.begin());
        return true;
    }
    std::array<T, N>& get() {
        return v;
    }
    static PyObject* cast(const std::array<T, N>& a) {
        return caster<std::vector<T>>::cast(std::vector<T>(a.begin(), a.end()));
    }
};

template <typename M>
struct map_caster {
    M v;
    bool load(handle h, bool convert) {
        if (!PyDict_Check(h.ptr()))
            return false;
        v.clear();
        PyObject *k, *x;
        Py_ssize_t pos = 0;
        while (PyDict_Next(h.ptr(), &pos, &k, &x)) {
            caster<typename M::key_type> ck;
            caster<typename M::mapped_type> cx;
            if (!ck.load(k, convert) || !cx.load(x, convert))
                return false;
            v.emplace(ck.get(), cx.get());
        }
        return true;
    }
    M& get() {
        return v;
    }
    static PyObject* cast(const M& m) {
        PyObject* r = PyDict_New();
        for (auto& [k, x] : m) {
            object a = pybind11::cast(k), b = pybind11::cast(x);
            PyDict_SetItem(r, a.ptr(), b.ptr());
        }
        return r;
    }
};

template <typename K, typename V>
struct caster<std::map<K, V>> : map_caster<std::map<K, V>> {};
template <typename K, typename V>
struct caster<std::unordered_map<K, V>> : map_caster<std::unordered_map<K, V>> {};

}  // namespace pybind11
