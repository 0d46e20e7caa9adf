// A small stand-in for the parts of pybind11 that PyMatching's bindings use. pybind11 itself is an empty git submodule
// in this checkout and cannot be fetched, so the checks of the Python layer compile the repository's own binding code
// against this header. Conversions, overload resolution and exception translation follow pybind11's documented rules.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

using ssize_t = Py_ssize_t;

class object;
template <typename T>
struct caster;
template <typename T>
object cast(T&& v);

struct error_already_set : public std::exception {
    PyObject* exc;
    error_already_set() : exc(PyErr_GetRaisedException()) {
    }
    error_already_set(const error_already_set& o) : exc(o.exc) {
        Py_XINCREF(exc);
    }
    ~error_already_set() override {
        Py_XDECREF(exc);
    }
    void restore() {
        PyErr_SetRaisedException(exc);
        exc = nullptr;
    }
    const char* what() const noexcept override {
        return "Python error";
    }
};
struct cast_error : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct value_error : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct index_error : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct type_error : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct key_error : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct stop_iteration : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct buffer_error : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct import_error : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct attribute_error : public std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct item_accessor;
struct attr_accessor;
struct iterator;
class str;

class handle {
   public:
    PyObject* m_ptr = nullptr;
    handle() {
    }
    handle(PyObject* p) : m_ptr(p) {
    }
    PyObject* ptr() const {
        return m_ptr;
    }
    explicit operator bool() const {
        return m_ptr != nullptr;
    }
    bool is(const handle& o) const {
        return m_ptr == o.m_ptr;
    }
    bool is_none() const {
        return m_ptr == Py_None;
    }
    const handle& inc_ref() const {
        Py_XINCREF(m_ptr);
        return *this;
    }
    const handle& dec_ref() const {
        Py_XDECREF(m_ptr);
        return *this;
    }
    attr_accessor attr(const char* name) const;
    template <typename T>
    T cast() const;
    item_accessor operator[](object key) const;
    item_accessor operator[](ssize_t i) const;
    item_accessor operator[](int i) const;
    item_accessor operator[](size_t i) const;
    item_accessor operator[](const char* k) const;
    template <typename... A>
    object operator()(A&&... a) const;
    template <typename T>
    bool contains(T&& x) const;
    bool equal(const handle& o) const {
        int r = PyObject_RichCompareBool(m_ptr, o.m_ptr, Py_EQ);
        if (r < 0)
            throw error_already_set();
        return r;
    }
    bool not_equal(const handle& o) const {
        return !equal(o);
    }
    iterator begin() const;
    iterator end() const;
};

struct arg_v;

class object : public handle {
   public:
    struct steal_t {};
    object() {
    }
    object(PyObject* p, steal_t) : handle(p) {
    }
    object(const object& o) : handle(o.m_ptr) {
        Py_XINCREF(m_ptr);
    }
    object(object&& o) noexcept : handle(o.m_ptr) {
        o.m_ptr = nullptr;
    }
    object& operator=(const object& o) {
        Py_XINCREF(o.m_ptr);
        Py_XDECREF(m_ptr);
        m_ptr = o.m_ptr;
        return *this;
    }
    object(handle h, bool is_borrowed) : handle(h.ptr()) {
        if (is_borrowed)
            Py_XINCREF(m_ptr);
    }
    object& operator=(object&& o) noexcept {
        std::swap(m_ptr, o.m_ptr);
        return *this;
    }
    ~object() {
        Py_XDECREF(m_ptr);
    }
    PyObject* release() {
        auto p = m_ptr;
        m_ptr = nullptr;
        return p;
    }
};

inline object steal(PyObject* p) {
    if (!p)
        throw error_already_set();
    return object(p, object::steal_t{});
}
inline object borrow(PyObject* p) {
    Py_XINCREF(p);
    return object(p, object::steal_t{});
}
template <typename T>
T reinterpret_borrow(handle h) {
    return T(borrow(h.ptr()));
}
template <typename T>
T reinterpret_steal(handle h) {
    return T(steal(h.ptr()));
}

// What obj[key] and obj.attr(name) give: reads convert to an object, assignments write through.
template <typename Self>
struct accessor_base {
    object get() const {
        return static_cast<const Self*>(this)->get();
    }
    operator object() const {
        return get();
    }
    template <typename T>
    T cast() const {
        return get().template cast<T>();
    }
    bool is_none() const {
        return get().is_none();
    }
    bool is(const handle& o) const {
        return get().is(o);
    }
    bool equal(const handle& o) const {
        return get().equal(o);
    }
    template <typename T>
    bool contains(T&& x) const {
        return get().contains(std::forward<T>(x));
    }
    template <typename... A>
    object operator()(A&&... a) const {
        return get()(std::forward<A>(a)...);
    }
    attr_accessor attr(const char* name) const;
    template <typename K>
    item_accessor operator[](K k) const;
};
struct item_accessor : accessor_base<item_accessor> {
    object obj, key;
    item_accessor(object o, object k) : obj(std::move(o)), key(std::move(k)) {
    }
    object get() const {
        return steal(PyObject_GetItem(obj.ptr(), key.ptr()));
    }
    template <typename T>
    void operator=(T&& v) {
        object o = pybind11::cast(std::forward<T>(v));
        if ((PyList_CheckExact(obj.ptr()) || PyTuple_CheckExact(obj.ptr())) && PyLong_CheckExact(key.ptr())) {
            // slots of a list or tuple made with a length start out empty
            ssize_t i = PyLong_AsSsize_t(key.ptr());
            int r = PyList_CheckExact(obj.ptr()) ? PyList_SetItem(obj.ptr(), i, o.release())
                                                 : (PyTuple_GetItem(obj.ptr(), i), PyErr_Occurred())
                ? -1
                : (PyTuple_SET_ITEM(obj.ptr(), i, o.release()), 0);
            if (r != 0)
                throw error_already_set();
            return;
        }
        if (PyObject_SetItem(obj.ptr(), key.ptr(), o.ptr()) != 0)
            throw error_already_set();
    }
};
struct attr_accessor : accessor_base<attr_accessor> {
    object obj;
    std::string name;
    attr_accessor(object o, const char* n) : obj(std::move(o)), name(n) {
    }
    object get() const {
        return steal(PyObject_GetAttrString(obj.ptr(), name.c_str()));
    }
    template <typename T>
    void operator=(T&& v) {
        object o = pybind11::cast(std::forward<T>(v));
        if (PyObject_SetAttrString(obj.ptr(), name.c_str(), o.ptr()) != 0)
            throw error_already_set();
    }
};
inline attr_accessor handle::attr(const char* name) const {
    return attr_accessor(borrow(m_ptr), name);
}
template <typename Self>
attr_accessor accessor_base<Self>::attr(const char* name) const {
    return get().attr(name);
}
template <typename Self>
template <typename K>
item_accessor accessor_base<Self>::operator[](K k) const {
    return get()[k];
}
template <typename T>
bool handle::contains(T&& x) const {
    object o = pybind11::cast(std::forward<T>(x));
    int r = PySequence_Contains(m_ptr, o.ptr());
    if (r < 0)
        throw error_already_set();
    return r;
}
struct iterator {
    object it, cur;
    using value_type = handle;
    using difference_type = ssize_t;
    using reference = handle;
    using pointer = const handle*;
    using iterator_category = std::input_iterator_tag;
    iterator() {
    }
    explicit iterator(object i) : it(std::move(i)) {
        ++*this;
    }
    iterator& operator++() {
        cur = object(PyIter_Next(it.ptr()), object::steal_t{});
        if (!cur && PyErr_Occurred())
            throw error_already_set();
        return *this;
    }
    handle operator*() const {
        return cur;
    }
    const handle* operator->() const {
        return &cur;
    }
    bool operator==(const iterator& o) const {
        return cur.ptr() == o.cur.ptr();
    }
    bool operator!=(const iterator& o) const {
        return !(*this == o);
    }
    static iterator sentinel() {
        return {};
    }
};
inline iterator handle::begin() const {
    return iterator(steal(PyObject_GetIter(m_ptr)));
}
inline iterator handle::end() const {
    return {};
}

class none : public object {
   public:
    none() : object(borrow(Py_None)) {
    }
};
class ellipsis : public object {
   public:
    ellipsis() : object(borrow(Py_Ellipsis)) {
    }
};
class str : public object {
   public:
    str(const char* c) : object(steal(PyUnicode_FromString(c))) {
    }
    str(const std::string& s) : object(steal(PyUnicode_FromStringAndSize(s.data(), s.size()))) {
    }
    explicit str(handle o) : object(steal(PyObject_Str(o.ptr()))) {
    }
    operator std::string() const {
        Py_ssize_t n;
        const char* c = PyUnicode_AsUTF8AndSize(m_ptr, &n);
        if (!c)
            throw error_already_set();
        return std::string(c, n);
    }
    template <typename... A>
    str format(A&&... a) const {
        return str(attr("format")(std::forward<A>(a)...));
    }
};
class bytes : public object {
   public:
    bytes() : bytes("") {
    }
    bytes(const std::string& s) : object(steal(PyBytes_FromStringAndSize(s.data(), s.size()))) {
    }
    bytes(const char* c, size_t n) : object(steal(PyBytes_FromStringAndSize(c, n))) {
    }
    explicit bytes(const object& o) : object(o) {
    }
    operator std::string() const {
        return std::string(PyBytes_AS_STRING(m_ptr), PyBytes_GET_SIZE(m_ptr));
    }
};
class int_ : public object {
   public:
    int_() : int_(0) {
    }
    template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
    int_(T v)
        : object(steal(std::is_unsigned_v<T> ? PyLong_FromUnsignedLongLong(v) : PyLong_FromLongLong((long long)v))) {
    }
    explicit int_(const object& o) : object(PyLong_Check(o.ptr()) ? o : steal(PyNumber_Long(o.ptr()))) {
    }
    template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
    operator T() const {
        return this->template cast<T>();
    }
};
class float_ : public object {
   public:
    float_(double v = 0) : object(steal(PyFloat_FromDouble(v))) {
    }
    explicit float_(const object& o) : object(PyFloat_Check(o.ptr()) ? o : steal(PyNumber_Float(o.ptr()))) {
    }
    operator double() const {
        return PyFloat_AsDouble(m_ptr);
    }
};
class bool_ : public object {
   public:
    bool_(bool v = false) : object(borrow(v ? Py_True : Py_False)) {
    }
    explicit bool_(const object& o) : bool_(PyObject_IsTrue(o.ptr()) == 1) {
    }
    operator bool() const {
        return m_ptr == Py_True;
    }
};
class iterable : public object {
   public:
    iterable() {
    }
    iterable(const object& o) : object(o) {
    }
};
class sequence : public object {
   public:
    sequence() {
    }
    sequence(const object& o) : object(o) {
    }
    size_t size() const {
        return PySequence_Size(m_ptr);
    }
    bool empty() const {
        return size() == 0;
    }
};
class function : public object {
   public:
    function() {
    }
    function(const object& o) : object(o) {
    }
};
class tuple : public object {
   public:
    tuple() : object(steal(PyTuple_New(0))) {
    }
    template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
    explicit tuple(T n) : object(steal(PyTuple_New(n))) {
    }
    bool empty() const {
        return size() == 0;
    }
    tuple(const item_accessor& a) : tuple(a.get()) {
    }
    tuple(const attr_accessor& a) : tuple(a.get()) {
    }
    tuple(const object& o) : object(PyTuple_Check(o.ptr()) ? borrow(o.ptr()) : steal(PySequence_Tuple(o.ptr()))) {
    }
    tuple(object&& o) : tuple((const object&)o) {
    }
    size_t size() const {
        return PyTuple_Size(m_ptr);
    }
};
class list : public object {
   public:
    list() : object(steal(PyList_New(0))) {
    }
    template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
    explicit list(T n) : object(steal(PyList_New(n))) {
    }
    bool empty() const {
        return size() == 0;
    }
    void clear() {
        PyList_SetSlice(m_ptr, 0, PyList_Size(m_ptr), nullptr);
    }
    template <typename T>
    void insert(size_t i, T&& v) {
        object o = pybind11::cast(std::forward<T>(v));
        if (PyList_Insert(m_ptr, i, o.ptr()) != 0)
            throw error_already_set();
    }
    list(const item_accessor& a) : list(a.get()) {
    }
    list(const attr_accessor& a) : list(a.get()) {
    }
    list(const object& o) : object(PyList_Check(o.ptr()) ? borrow(o.ptr()) : steal(PySequence_List(o.ptr()))) {
    }
    template <typename T>
    void append(T&& v) {
        object o = pybind11::cast(std::forward<T>(v));
        if (PyList_Append(m_ptr, o.ptr()) != 0)
            throw error_already_set();
    }
    size_t size() const {
        return PyList_Size(m_ptr);
    }
};
class set : public object {
   public:
    set() : object(steal(PySet_New(nullptr))) {
    }
    template <typename T>
    bool add(T&& v) {
        object o = pybind11::cast(std::forward<T>(v));
        return PySet_Add(m_ptr, o.ptr()) == 0;
    }
    explicit set(const object& o) : object(PyAnySet_Check(o.ptr()) ? o : steal(PySet_New(o.ptr()))) {
    }
    size_t size() const {
        return PySet_Size(m_ptr);
    }
    bool empty() const {
        return size() == 0;
    }
    void clear() {
        PySet_Clear(m_ptr);
    }
};

struct arg {
    const char* name;
    constexpr explicit arg(const char* n) : name(n) {
    }
    template <typename T>
    arg_v operator=(T&& v) const;
    arg noconvert(bool = true) const {
        return *this;
    }
    arg none(bool = true) const {
        return *this;
    }
};
struct arg_v : arg {
    object value;
    arg_v(const char* n, object v) : arg(n), value(std::move(v)) {
    }
};
template <typename T>
arg_v arg::operator=(T&& v) const {
    return arg_v(name, pybind11::cast(std::forward<T>(v)));
}
struct kw_only {};
struct pos_only {};
struct doc {
    const char* value;
    doc(const char* v) : value(v) {
    }
};
struct name {
    const char* value;
    name(const char* v) : value(v) {
    }
};
enum class return_value_policy {
    automatic,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};
class gil_scoped_release {
    PyThreadState* st;

   public:
    gil_scoped_release() : st(PyEval_SaveThread()) {
    }
    ~gil_scoped_release() {
        PyEval_RestoreThread(st);
    }
};
class gil_scoped_acquire {
    PyGILState_STATE st;

   public:
    gil_scoped_acquire() : st(PyGILState_Ensure()) {
    }
    ~gil_scoped_acquire() {
        PyGILState_Release(st);
    }
};
template <typename... T>
struct call_guard {};
template <size_t, size_t>
struct keep_alive {};
template <typename... A>
struct overload_cast_t {
    template <typename R>
    constexpr auto operator()(R (*f)(A...)) const {
        return f;
    }
    template <typename R, typename C>
    constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const {
        return f;
    }
    template <typename R, typename C>
    constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const {
        return f;
    }
};
template <typename... A>
inline constexpr overload_cast_t<A...> overload_cast{};
inline constexpr std::true_type const_{};

class dict : public object {
   public:
    dict() : object(steal(PyDict_New())) {
    }
    explicit dict(const object& o) : object(borrow(o.ptr())) {
    }
    bool empty() const {
        return size() == 0;
    }
    void clear() {
        PyDict_Clear(m_ptr);
    }
    struct iter {
        PyObject* d = nullptr;
        Py_ssize_t pos = 0;
        PyObject *k = nullptr, *v = nullptr;
        iter& operator++() {
            if (!PyDict_Next(d, &pos, &k, &v))
                d = nullptr;
            return *this;
        }
        std::pair<handle, handle> operator*() const {
            return {handle(k), handle(v)};
        }
        bool operator!=(const iter& o) const {
            return d != o.d;
        }
        bool operator==(const iter& o) const {
            return d == o.d;
        }
    };
    iter begin() const {
        iter i{m_ptr};
        return ++i;
    }
    iter end() const {
        return {};
    }
    template <typename... A, typename = std::enable_if_t<(sizeof...(A) > 0) && (std::is_same_v<std::decay_t<A>, arg_v> && ...)>>
    explicit dict(A&&... a) : dict() {
        (put(a), ...);
    }
    void put(const arg_v& a) {
        if (PyDict_SetItemString(m_ptr, a.name, a.value.ptr()) != 0)
            throw error_already_set();
    }
    size_t size() const {
        return PyDict_Size(m_ptr);
    }
};

class capsule : public object {
   public:
    explicit capsule(const void* p) : capsule(p, [](void*) {}) {
    }
    template <typename T>
    operator T*() const {
        return (T*)PyCapsule_GetPointer(m_ptr, nullptr);
    }
    capsule(const void* p, void (*destructor)(void*)) {
        auto* c = PyCapsule_New(const_cast<void*>(p), nullptr, [](PyObject* o) {
            auto d = reinterpret_cast<void (*)(void*)>(PyCapsule_GetContext(o));
            d(PyCapsule_GetPointer(o, nullptr));
        });
        if (!c || PyCapsule_SetContext(c, reinterpret_cast<void*>(destructor)) != 0)
            throw error_already_set();
        m_ptr = c;
    }
};

namespace literals {
constexpr arg operator""_a(const char* n, size_t) {
    return arg(n);
}
}  // namespace literals

inline bool isinstance(const handle& o, const handle& type) {
    int r = PyObject_IsInstance(o.ptr(), type.ptr());
    if (r == -1)
        throw error_already_set();
    return r != 0;
}

inline size_t len(const handle& h) {
    ssize_t r = PyObject_Length(h.ptr());
    if (r < 0)
        throw error_already_set();
    return r;
}
inline bool hasattr(const handle& h, const char* n) {
    return PyObject_HasAttrString(h.ptr(), n) == 1;
}
inline object getattr(const handle& h, const char* n) {
    return steal(PyObject_GetAttrString(h.ptr(), n));
}
inline void setattr(const handle& h, const char* n, const handle& v) {
    if (PyObject_SetAttrString(h.ptr(), n, v.ptr()) != 0)
        throw error_already_set();
}
inline str repr(const handle& h) {
    return str(steal(PyObject_Repr(h.ptr())));
}
inline iterator iter(const handle& h) {
    return h.begin();
}
template <typename T>
bool isinstance(const handle& h) {
    caster<T> c;
    if constexpr (std::is_same_v<T, int_>)
        return PyLong_Check(h.ptr());
    else if constexpr (std::is_same_v<T, float_>)
        return PyFloat_Check(h.ptr());
    else
        return c.load(h, false);
}

// ---------------------------------------------------------------- casters

template <typename T>
struct registered {
    static inline PyTypeObject* type = nullptr;
    struct inst {
        PyObject_HEAD T* p;
    };
};

// Registered C++ classes
template <typename T>
struct caster {
    T* p = nullptr;
    using stored = T&;
    bool load(handle h, bool) {
        if (!registered<T>::type || !PyObject_TypeCheck(h.ptr(), registered<T>::type))
            return false;
        p = ((typename registered<T>::inst*)h.ptr())->p;
        return p != nullptr;
    }
    T& get() {
        return *p;
    }
    static PyObject* cast(T&& v) {
        auto* t = registered<T>::type;
        auto* o = (typename registered<T>::inst*)t->tp_alloc(t, 0);
        o->p = new T(std::move(v));
        return (PyObject*)o;
    }
};
// Pointers to registered classes: arguments may be None; returned pointers are taken over.
template <typename T>
struct caster<T*> {
    T* p = nullptr;
    bool load(handle h, bool convert) {
        if (h.is_none()) {
            p = nullptr;
            return convert;
        }
        caster<std::remove_const_t<T>> c;
        if (!c.load(h, convert))
            return false;
        p = &c.get();
        return true;
    }
    T* get() {
        return p;
    }
    static PyObject* cast(T* v) {
        if (!v)
            Py_RETURN_NONE;
        auto* t = registered<T>::type;
        auto* o = (typename registered<T>::inst*)t->tp_alloc(t, 0);
        o->p = v;
        return (PyObject*)o;
    }
};
template <typename T>
struct caster<std::unique_ptr<T>> {
    static PyObject* cast(std::unique_ptr<T> v) {
        return caster<T*>::cast(v.release());
    }
};
template <>
struct caster<std::nullptr_t> {
    static PyObject* cast(std::nullptr_t) {
        Py_RETURN_NONE;
    }
};
template <>
struct caster<item_accessor> {
    static PyObject* cast(const item_accessor& a) {
        return a.get().release();
    }
};
template <>
struct caster<attr_accessor> {
    static PyObject* cast(const attr_accessor& a) {
        return a.get().release();
    }
};

template <>
struct caster<bool> {
    bool v = false;
    bool load(handle h, bool convert) {
        if (h.ptr() == Py_True) {
            v = true;
            return true;
        }
        if (h.ptr() == Py_False) {
            v = false;
            return true;
        }
        std::string tn = Py_TYPE(h.ptr())->tp_name;
        if (convert || tn == "numpy.bool" || tn == "numpy.bool_") {
            if (h.is_none()) {
                v = false;
                return true;
            }
            auto* nb = Py_TYPE(h.ptr())->tp_as_number;
            if (nb && nb->nb_bool) {
                int r = nb->nb_bool(h.ptr());
                if (r == 0 || r == 1) {
                    v = r;
                    return true;
                }
                PyErr_Clear();
            }
        }
        return false;
    }
    bool& get() {
        return v;
    }
    static PyObject* cast(bool b) {
        return PyBool_FromLong(b);
    }
};

template <typename T>
struct int_caster {
    T v = 0;
    bool load(handle h, bool convert) {
        if (PyFloat_Check(h.ptr()))
            return false;
        if (!convert && !PyLong_Check(h.ptr()) && !PyIndex_Check(h.ptr()))
            return false;
        object idx;
        PyObject* src = h.ptr();
        if (!PyLong_Check(src)) {
            PyObject* i = PyNumber_Index(src);
            if (!i) {
                PyErr_Clear();
                if (!convert)
                    return false;
            } else {
                idx = object(i, object::steal_t{});
                src = i;
            }
        }
        bool err;
        if constexpr (std::is_unsigned_v<T>) {
            unsigned long long x = (unsigned long long)-1;
            if (PyLong_Check(src))
                x = PyLong_AsUnsignedLongLong(src);
            else
                PyErr_SetString(PyExc_TypeError, "not an int");
            err = x == (unsigned long long)-1 && PyErr_Occurred();
            if (!err && x != (unsigned long long)(T)x)
                return false;
            v = (T)x;
        } else {
            long long x = PyLong_AsLongLong(src);
            err = x == -1 && PyErr_Occurred();
            if (!err && x != (long long)(T)x)
                return false;
            v = (T)x;
        }
        if (err) {
            PyErr_Clear();
            if (convert && PyNumber_Check(h.ptr()) && !PyLong_Check(h.ptr())) {
                PyObject* l = PyNumber_Long(h.ptr());
                PyErr_Clear();
                if (!l)
                    return false;
                object lo(l, object::steal_t{});
                return load(lo, false);
            }
            return false;
        }
        return true;
    }
    T& get() {
        return v;
    }
    static PyObject* cast(T x) {
        if constexpr (std::is_unsigned_v<T>)
            return PyLong_FromUnsignedLongLong(x);
        else
            return PyLong_FromLongLong(x);
    }
};
template <>
struct caster<int> : int_caster<int> {};
template <>
struct caster<unsigned> : int_caster<unsigned> {};
template <>
struct caster<long> : int_caster<long> {};
template <>
struct caster<unsigned long> : int_caster<unsigned long> {};
template <>
struct caster<long long> : int_caster<long long> {};
template <>
struct caster<unsigned long long> : int_caster<unsigned long long> {};
template <>
struct caster<unsigned char> : int_caster<unsigned char> {};

template <typename T>
struct float_caster {
    T v = 0;
    bool load(handle h, bool convert) {
        if (!convert && !PyFloat_Check(h.ptr()))
            return false;
        double d = PyFloat_AsDouble(h.ptr());
        if (d == -1 && PyErr_Occurred()) {
            PyErr_Clear();
            if (convert && PyNumber_Check(h.ptr())) {
                PyObject* f = PyNumber_Float(h.ptr());
                PyErr_Clear();
                if (!f)
                    return false;
                object fo(f, object::steal_t{});
                return load(fo, false);
            }
            return false;
        }
        v = (T)d;
        return true;
    }
    T& get() {
        return v;
    }
    static PyObject* cast(T x) {
        return PyFloat_FromDouble(x);
    }
};
template <>
struct caster<double> : float_caster<double> {};
template <>
struct caster<float> : float_caster<float> {};

template <>
struct caster<std::string> {
    std::string v;
    bool load(handle h, bool) {
        Py_ssize_t n;
        if (PyUnicode_Check(h.ptr())) {
            const char* s = PyUnicode_AsUTF8AndSize(h.ptr(), &n);
            if (!s) {
                PyErr_Clear();
                return false;
            }
            v.assign(s, n);
            return true;
        }
        if (PyBytes_Check(h.ptr())) {
            v.assign(PyBytes_AsString(h.ptr()), PyBytes_Size(h.ptr()));
            return true;
        }
        return false;
    }
    std::string& get() {
        return v;
    }
    static PyObject* cast(const std::string& s) {
        return PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr);
    }
};
template <>
struct caster<const char*> {
    std::string s;
    const char* v = nullptr;
    bool load(handle h, bool convert) {
        if (h.is_none()) {
            v = nullptr;
            return convert;
        }
        caster<std::string> c;
        if (!c.load(h, convert))
            return false;
        s = c.v;
        v = s.c_str();
        return true;
    }
    const char*& get() {
        return v;
    }
    static PyObject* cast(const char* c) {
        if (!c)
            Py_RETURN_NONE;
        return PyUnicode_FromString(c);
    }
};
template <>
struct caster<char*> : caster<const char*> {};

template <typename T>
struct object_caster {
    T v;
    T& get() {
        return v;
    }
    static PyObject* cast(const handle& h) {
        Py_XINCREF(h.ptr());
        return h.ptr();
    }
};
#define PYSHIM_OBJ(T, CHECK)                                          \
    template <>                                                       \
    struct caster<T> : object_caster<T> {                             \
        bool load(handle h, bool) {                                   \
            if (!(CHECK))                                             \
                return false;                                         \
            static_cast<object&>(v) = borrow(h.ptr());                \
            return true;                                              \
        }                                                             \
    };
PYSHIM_OBJ(object, true)
PYSHIM_OBJ(tuple, PyTuple_Check(h.ptr()))
PYSHIM_OBJ(list, PyList_Check(h.ptr()))
PYSHIM_OBJ(dict, PyDict_Check(h.ptr()))
PYSHIM_OBJ(set, PyAnySet_Check(h.ptr()))
PYSHIM_OBJ(none, h.is_none())
PYSHIM_OBJ(int_, PyLong_Check(h.ptr()))
PYSHIM_OBJ(float_, PyFloat_Check(h.ptr()))
PYSHIM_OBJ(bool_, PyBool_Check(h.ptr()))
PYSHIM_OBJ(bytes, PyBytes_Check(h.ptr()))
PYSHIM_OBJ(sequence, PySequence_Check(h.ptr()))
PYSHIM_OBJ(iterable, Py_TYPE(h.ptr())->tp_iter != nullptr || PySequence_Check(h.ptr()))
PYSHIM_OBJ(function, PyCallable_Check(h.ptr()))
#undef PYSHIM_OBJ
template <>
struct caster<handle> {
    handle v;
    bool load(handle h, bool) {
        v = h;
        return true;
    }
    handle& get() {
        return v;
    }
    static PyObject* cast(const handle& h) {
        Py_XINCREF(h.ptr());
        return h.ptr();
    }
};
template <>
struct caster<ellipsis> {
    static PyObject* cast(const handle& h) {
        Py_XINCREF(h.ptr());
        return h.ptr();
    }
};
template <>
struct caster<str> : caster<ellipsis> {
    object v;
    bool load(handle h, bool) {
        if (!PyUnicode_Check(h.ptr()))
            return false;
        v = borrow(h.ptr());
        return true;
    }
    str get() {
        return str(v);
    }
};
template <>
struct caster<capsule> : caster<ellipsis> {};

template <typename T>
using caster_for = caster<std::decay_t<T>>;

template <typename T>
object cast(T&& v) {
    PyObject* p;
    if constexpr (std::is_array_v<std::remove_reference_t<T>>)
        p = caster<const char*>::cast(v);
    else
        p = caster_for<T>::cast(std::forward<T>(v));
    if (!p)
        throw error_already_set();
    return object(p, object::steal_t{});
}

template <typename T>
T cast(const handle& h) {
    return h.template cast<T>();
}
template <typename T, typename A, typename = std::enable_if_t<std::is_base_of_v<accessor_base<A>, A>>>
T cast(const A& a) {
    return a.template cast<T>();
}
template <typename T>
T handle::cast() const {
    caster<std::decay_t<T>> c;
    if (!c.load(*this, true))
        throw cast_error("Unable to cast Python instance to C++ type");
    return c.get();
}

inline item_accessor handle::operator[](object key) const {
    return {borrow(m_ptr), std::move(key)};
}
inline item_accessor handle::operator[](ssize_t i) const {
    return {borrow(m_ptr), pybind11::cast((long long)i)};
}
inline item_accessor handle::operator[](int i) const {
    return {borrow(m_ptr), pybind11::cast((long long)i)};
}
inline item_accessor handle::operator[](size_t i) const {
    return {borrow(m_ptr), pybind11::cast((long long)i)};
}
inline item_accessor handle::operator[](const char* k) const {
    return {borrow(m_ptr), pybind11::cast(k)};
}

template <typename... A>
tuple make_tuple(A&&... a) {
    object t = steal(PyTuple_New(sizeof...(A)));
    size_t i = 0;
    (PyTuple_SET_ITEM(t.ptr(), i++, pybind11::cast(std::forward<A>(a)).release()), ...);
    return tuple(t);
}

template <typename... A>
object handle::operator()(A&&... a) const {
    list pos;
    dict kw;
    auto put = [&](auto&& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<X, arg_v>)
            kw.put(x);
        else
            pos.append(std::forward<decltype(x)>(x));
    };
    (put(std::forward<A>(a)), ...);
    object t = steal(PyList_AsTuple(pos.ptr()));
    return steal(PyObject_Call(m_ptr, t.ptr(), kw.ptr()));
}

// ---------------------------------------------------------------- functions

inline PyObject* const TRY_NEXT = (PyObject*)1;

struct func_record {
    size_t nargs = 0;
    size_t npos = SIZE_MAX;
    std::vector<std::string> names;   // "" when unnamed
    std::vector<object> defaults;     // null when there is none
    std::function<PyObject*(PyObject**, bool)> call;
};
struct func_group {
    std::string name;
    std::vector<func_record> overloads;
    PyMethodDef def{};
    bool is_init = false;
};

inline PyObject* translate_current_exception() {
    try {
        throw;
    } catch (error_already_set& e) {
        e.restore();
    } catch (const value_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const index_error& e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const type_error& e) {
        PyErr_SetString(PyExc_TypeError, e.what());
    } catch (const key_error& e) {
        PyErr_SetString(PyExc_KeyError, e.what());
    } catch (const stop_iteration& e) {
        PyErr_SetString(PyExc_StopIteration, e.what());
    } catch (const buffer_error& e) {
        PyErr_SetString(PyExc_BufferError, e.what());
    } catch (const import_error& e) {
        PyErr_SetString(PyExc_ImportError, e.what());
    } catch (const attribute_error& e) {
        PyErr_SetString(PyExc_AttributeError, e.what());
    } catch (const cast_error& e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (const std::bad_alloc& e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (const std::domain_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::invalid_argument& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::length_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::out_of_range& e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const std::range_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::overflow_error& e) {
        PyErr_SetString(PyExc_OverflowError, e.what());
    } catch (const std::exception& e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (...) {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
    }
    return nullptr;
}

inline PyObject* dispatch(PyObject* self, PyObject* args, PyObject* kwargs) {
    auto* g = (func_group*)PyCapsule_GetPointer(self, nullptr);
    size_t given = PyTuple_GET_SIZE(args);
    size_t nkw = kwargs ? PyDict_Size(kwargs) : 0;
    for (int pass = g->overloads.size() > 1 ? 0 : 1; pass < 2; pass++) {
        for (auto& r : g->overloads) {
            if (given > std::min(r.npos, r.nargs))
                continue;
            std::vector<PyObject*> a(r.nargs, nullptr);
            for (size_t i = 0; i < given; i++)
                a[i] = PyTuple_GET_ITEM(args, i);
            size_t used = 0;
            bool ok = true;
            for (size_t i = given; i < r.nargs && ok; i++) {
                PyObject* v = nullptr;
                if (kwargs && !r.names[i].empty())
                    v = PyDict_GetItemString(kwargs, r.names[i].c_str());
                if (v) {
                    used++;
                    a[i] = v;
                } else if (r.defaults[i]) {
                    a[i] = r.defaults[i].ptr();
                } else {
                    ok = false;
                }
            }
            if (!ok || used != nkw)
                continue;
            PyObject* res;
            try {
                res = r.call(a.data(), pass == 1);
            } catch (...) {
                return translate_current_exception();
            }
            if (res != TRY_NEXT)
                return res;
        }
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", g->name.c_str());
    return nullptr;
}

template <typename F>
struct sig;
template <typename R, typename... A>
struct sig<R (*)(A...)> {
    using ret = R;
    using args = std::tuple<A...>;
};
template <typename C, typename R, typename... A>
struct sig<R (C::*)(A...) const> {
    using ret = R;
    using args = std::tuple<A...>;
    using cls = C;
};
template <typename C, typename R, typename... A>
struct sig<R (C::*)(A...)> {
    using ret = R;
    using args = std::tuple<A...>;
    using cls = C;
};

template <typename R, typename... A, typename F, size_t... I>
PyObject* invoke_impl(F& f, PyObject** a, bool convert, std::tuple<A...>*, std::index_sequence<I...>) {
    std::tuple<caster_for<A>...> cs;
    bool ok = true;
    ((ok = ok && std::get<I>(cs).load(handle(a[I]), convert)), ...);
    if (!ok) {
        PyErr_Clear();
        return TRY_NEXT;
    }
    if constexpr (std::is_void_v<R>) {
        f(static_cast<A>(std::get<I>(cs).get())...);
        Py_RETURN_NONE;
    } else {
        return caster_for<R>::cast(f(static_cast<A>(std::get<I>(cs).get())...));
    }
}

template <typename R, typename... A, typename F>
func_record make_record(F f, std::tuple<A...>*) {
    func_record r;
    r.nargs = sizeof...(A);
    r.names.resize(r.nargs);
    r.defaults.resize(r.nargs);
    r.call = [f](PyObject** a, bool convert) mutable {
        return invoke_impl<R>(f, a, convert, (std::tuple<A...>*)nullptr, std::index_sequence_for<A...>{});
    };
    return r;
}

inline void apply_extra(func_record& r, size_t& k, const arg& a) {
    if (k < r.nargs)
        r.names[k++] = a.name;
}
inline void apply_extra(func_record& r, size_t& k, const arg_v& a) {
    if (k < r.nargs) {
        r.names[k] = a.name;
        r.defaults[k++] = a.value;
    }
}
inline void apply_extra(func_record& r, size_t& k, const kw_only&) {
    r.npos = k;
}
// documentation, policies and guards do not change what a call does
template <typename E>
inline void apply_extra(func_record&, size_t&, const E&) {
}

inline object finish_function(func_group*& g, const char* name, func_record r) {
    if (!g) {
        g = new func_group;
        g->name = name;
        g->def = {g->name.c_str(), (PyCFunction)(void*)dispatch, METH_VARARGS | METH_KEYWORDS, ""};
    }
    g->overloads.push_back(std::move(r));
    object cap = steal(PyCapsule_New(g, nullptr, nullptr));
    return steal(PyCFunction_New(&g->def, cap.ptr()));
}

class module_ : public object {
   public:
    std::shared_ptr<std::map<std::string, func_group*>> groups = std::make_shared<std::map<std::string, func_group*>>();
    explicit module_(object o) : object(std::move(o)) {
    }
    std::string& doc() {
        static std::string d;
        return d;
    }
    static module_ import(const char* name) {
        return module_(steal(PyImport_ImportModule(name)));
    }
    template <typename F, typename... E>
    module_& def(const char* name, F&& f, const E&... extra) {
        using FD = std::decay_t<F>;
        func_record r;
        if constexpr (std::is_pointer_v<FD>) {
            using S = sig<FD>;
            r = make_record<typename S::ret>(f, (typename S::args*)nullptr);
        } else {
            using S = sig<decltype(&FD::operator())>;
            r = make_record<typename S::ret>(f, (typename S::args*)nullptr);
        }
        size_t k = 0;
        (apply_extra(r, k, extra), ...);
        object fn = finish_function((*groups)[name], name, std::move(r));
        if (PyObject_SetAttrString(m_ptr, name, fn.ptr()) != 0)
            throw error_already_set();
        return *this;
    }
};
using module = module_;

template <typename... A>
struct init_t {};
template <typename F>
struct factory_t {
    F f;
};
template <typename... A>
init_t<A...> init() {
    return {};
}
template <typename F>
factory_t<std::decay_t<F>> init(F&& f) {
    return {std::forward<F>(f)};
}

template <typename T, typename... Options>
class class_ : public object {
   public:
    std::shared_ptr<std::map<std::string, func_group*>> groups = std::make_shared<std::map<std::string, func_group*>>();
    using inst = typename registered<T>::inst;

    template <typename... E>
    class_(module_& m, const char* name, const E&...) {
        static std::string full;
        full = std::string("_cpp_pymatching.") + name;
        static PyType_Slot slots[] = {
            {Py_tp_new, (void*)+[](PyTypeObject* t, PyObject*, PyObject*) -> PyObject* {
                 auto* o = (inst*)t->tp_alloc(t, 0);
                 if (o)
                     o->p = nullptr;
                 return (PyObject*)o;
             }},
            {Py_tp_dealloc, (void*)+[](PyObject* o) {
                 auto* t = Py_TYPE(o);
                 delete ((inst*)o)->p;
                 t->tp_free(o);
                 Py_DECREF(t);
             }},
            {0, nullptr}};
        static PyType_Spec spec;
        spec = {full.c_str(), (int)sizeof(inst), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        PyObject* t = PyType_FromSpec(&spec);
        if (!t)
            throw error_already_set();
        m_ptr = t;
        registered<T>::type = (PyTypeObject*)t;
        if (PyObject_SetAttrString(m.ptr(), name, t) != 0)
            throw error_already_set();
    }

    template <typename F, typename... E>
    class_& def(const factory_t<F>& fac, const E&... extra) {
        return def_factory(fac.f, (typename sig<decltype(&F::operator())>::args*)nullptr, extra...);
    }
    template <typename F, typename... A, typename... E>
    class_& def_factory(F f, std::tuple<A...>*, const E&... extra) {
        func_record r;
        r.nargs = 1 + sizeof...(A);
        r.names.resize(r.nargs);
        r.defaults.resize(r.nargs);
        r.call = [f](PyObject** a, bool convert) -> PyObject* {
            T* made = nullptr;
            auto maker = [&](A... x) {
                auto m = f(std::forward<A>(x)...);
                if constexpr (std::is_pointer_v<decltype(m)>)
                    made = m;
                else if constexpr (std::is_same_v<decltype(m), std::unique_ptr<T>>)
                    made = m.release();
                else
                    made = new T(std::move(m));
            };
            PyObject* res = invoke_impl<void>(
                maker, a + 1, convert, (std::tuple<A...>*)nullptr, std::index_sequence_for<A...>{});
            if (res == TRY_NEXT || !res)
                return res;
            auto* self = (inst*)a[0];
            delete self->p;
            self->p = made;
            return res;
        };
        size_t k = 1;
        (apply_extra(r, k, extra), ...);
        attach("__init__", std::move(r));
        return *this;
    }

    void attach(const char* name, func_record r) {
        object fn = finish_function((*groups)[name], name, std::move(r));
        object im = steal(PyInstanceMethod_New(fn.ptr()));
        if (PyObject_SetAttrString(m_ptr, name, im.ptr()) != 0)
            throw error_already_set();
    }

    template <typename... A, typename... E>
    class_& def(const init_t<A...>&, const E&... extra) {
        func_record r;
        r.nargs = 1 + sizeof...(A);
        r.names.resize(r.nargs);
        r.defaults.resize(r.nargs);
        r.call = [](PyObject** a, bool convert) -> PyObject* {
            T* made = nullptr;
            auto maker = [&](A... x) {
                made = new T(x...);
            };
            PyObject* res = invoke_impl<void>(
                maker, a + 1, convert, (std::tuple<A...>*)nullptr, std::index_sequence_for<A...>{});
            if (res == TRY_NEXT || !res)
                return res;
            auto* self = (inst*)a[0];
            delete self->p;
            self->p = made;
            return res;
        };
        size_t k = 1;
        (apply_extra(r, k, extra), ...);
        attach("__init__", std::move(r));
        return *this;
    }

    template <typename F, typename... E>
    class_& def_static(const char* name, F&& f, const E&... extra) {
        func_record r = record(f);
        size_t k = 0;
        (apply_extra(r, k, extra), ...);
        object fn = finish_function((*groups)[name], name, std::move(r));
        object sm = steal(PyStaticMethod_New(fn.ptr()));
        if (PyObject_SetAttrString(m_ptr, name, sm.ptr()) != 0)
            throw error_already_set();
        return *this;
    }
    template <typename F, typename... E>
    class_& def_property_readonly(const char* name, F&& f, const E&...) {
        return property(name, record(f), nullptr);
    }
    template <typename F, typename G, typename... E>
    class_& def_property(const char* name, F&& f, G&& g, const E&...) {
        func_record w = record(g);
        return property(name, record(f), &w);
    }
    template <typename V, typename... E>
    class_& def_readonly(const char* name, V T::*m, const E&...) {
        return def_property_readonly(name, [m](const T& s) -> V {
            return s.*m;
        });
    }
    template <typename V, typename... E>
    class_& def_readwrite(const char* name, V T::*m, const E&...) {
        return def_property(
            name,
            [m](const T& s) -> V {
                return s.*m;
            },
            [m](T& s, V v) {
                s.*m = v;
            });
    }

    template <typename F, typename... E>
    class_& def(const char* name, F&& f, const E&... extra) {
        using FD = std::decay_t<F>;
        func_record r;
        if constexpr (std::is_member_function_pointer_v<FD>) {
            r = member_record(f, (typename sig<FD>::args*)nullptr);
        } else if constexpr (std::is_pointer_v<FD>) {
            using S = sig<FD>;
            r = make_record<typename S::ret>(f, (typename S::args*)nullptr);
        } else {
            using S = sig<decltype(&FD::operator())>;
            r = make_record<typename S::ret>(f, (typename S::args*)nullptr);
        }
        size_t k = 1;
        (apply_extra(r, k, extra), ...);
        attach(name, std::move(r));
        return *this;
    }

   private:
    class_& property(const char* name, func_record rd, func_record* wr) {
        func_group *g = nullptr, *w = nullptr;
        object fget = steal(PyInstanceMethod_New(finish_function(g, name, std::move(rd)).ptr()));
        object fset = borrow(Py_None);
        if (wr)
            fset = steal(PyInstanceMethod_New(finish_function(w, name, std::move(*wr)).ptr()));
        object pr = steal(PyObject_CallFunctionObjArgs((PyObject*)&PyProperty_Type, fget.ptr(), fset.ptr(), nullptr));
        if (PyObject_SetAttrString(m_ptr, name, pr.ptr()) != 0)
            throw error_already_set();
        return *this;
    }
    template <typename F>
    func_record record(F&& f) {
        using FD = std::decay_t<F>;
        if constexpr (std::is_member_function_pointer_v<FD>)
            return member_record(f, (typename sig<FD>::args*)nullptr);
        else if constexpr (std::is_pointer_v<FD>)
            return make_record<typename sig<FD>::ret>(f, (typename sig<FD>::args*)nullptr);
        else
            return make_record<typename sig<decltype(&FD::operator())>::ret>(
                f, (typename sig<decltype(&FD::operator())>::args*)nullptr);
    }
    template <typename F, typename... A>
    func_record member_record(F f, std::tuple<A...>*) {
        using R = typename sig<F>::ret;
        auto g = [f](T& self, A... a) -> R {
            return (self.*f)(std::forward<A>(a)...);
        };
        return make_record<R>(g, (std::tuple<T&, A...>*)nullptr);
    }
};

void pyshim_init_numpy();

}  // namespace pybind11

#define PYBIND11_MODULE(NAME, VAR)                                                                            \
    static void pyshim_module_body(::pybind11::module_&);                                                     \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##NAME() {                             \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
        PyObject* m = PyModule_Create(&def);                                                                  \
        if (!m)                                                                                               \
            return nullptr;                                                                                   \
        try {                                                                                                 \
            ::pybind11::pyshim_init_numpy();                                                                  \
            ::pybind11::module_ mod(::pybind11::borrow(m));                                                   \
            pyshim_module_body(mod);                                                                          \
        } catch (...) {                                                                                       \
            ::pybind11::translate_current_exception();                                                        \
            return nullptr;                                                                                   \
        }                                                                                                     \
        return m;                                                                                             \
    }                                                                                                         \
    static void pyshim_module_body(::pybind11::module_& VAR)
