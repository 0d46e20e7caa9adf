#pragma once
#include "pybind11/pybind11.h"
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#ifndef PYSHIM_NUMPY_OWNER
#define NO_IMPORT_ARRAY
#endif
#define PY_ARRAY_UNIQUE_SYMBOL pyshim_numpy_api
#include <numpy/arrayobject.h>

#include <initializer_list>

namespace pybind11 {

template <typename T>
struct npy_type;
#define PYSHIM_NPY(T, N)                 \
    template <>                          \
    struct npy_type<T> {                 \
        static constexpr int value = N;  \
    };
PYSHIM_NPY(bool, NPY_BOOL)
PYSHIM_NPY(signed char, NPY_INT8)
PYSHIM_NPY(unsigned char, NPY_UINT8)
PYSHIM_NPY(short, NPY_INT16)
PYSHIM_NPY(unsigned short, NPY_UINT16)
PYSHIM_NPY(int, NPY_INT32)
PYSHIM_NPY(unsigned, NPY_UINT32)
PYSHIM_NPY(long, NPY_INT64)
PYSHIM_NPY(unsigned long, NPY_UINT64)
PYSHIM_NPY(long long, NPY_LONGLONG)
PYSHIM_NPY(unsigned long long, NPY_ULONGLONG)
PYSHIM_NPY(float, NPY_FLOAT32)
PYSHIM_NPY(double, NPY_FLOAT64)
#undef PYSHIM_NPY

struct buffer_info {
    void* ptr;
    ssize_t itemsize, size, ndim;
    std::vector<ssize_t> shape, strides;
};

// any braced list or container of integers, like pybind11's ShapeContainer
struct shape_container : std::vector<ssize_t> {
    using std::vector<ssize_t>::vector;
    shape_container() {
    }
    template <typename I, typename = std::enable_if_t<std::is_integral_v<I>>>
    shape_container(std::initializer_list<I> l) : std::vector<ssize_t>(l.begin(), l.end()) {
    }
    template <typename C, typename = decltype(std::declval<const C&>().begin()), typename = void>
    shape_container(const C& c) : std::vector<ssize_t>(c.begin(), c.end()) {
    }
};

template <typename T, ssize_t Dims>
struct unchecked_reference {
    const unsigned char* data;
    std::vector<ssize_t> shp, str;
    template <typename... I>
    T& at(I... i) const {
        static_assert(sizeof...(I) == Dims);
        ssize_t off = 0;
        size_t k = 0;
        ((off += (ssize_t)i * str[k++]), ...);
        return *(T*)(data + off);
    }
    template <typename... I>
    T& operator()(I... i) const {
        return at(i...);
    }
    template <typename I>
    T& operator[](I i) const {
        return at(i);
    }
    ssize_t shape(ssize_t i) const {
        return shp[i];
    }
    ssize_t size() const {
        ssize_t n = 1;
        for (auto s : shp)
            n *= s;
        return n;
    }
    constexpr ssize_t ndim() const {
        return Dims;
    }
    ssize_t nbytes() const {
        return size() * sizeof(T);
    }
};

class array : public object {
   public:
    enum {
        c_style = NPY_ARRAY_C_CONTIGUOUS,
        f_style = NPY_ARRAY_F_CONTIGUOUS,
        forcecast = NPY_ARRAY_FORCECAST
    };
    array() {
    }
    explicit array(const object& o) : object(steal(PyArray_FromAny(o.ptr(), nullptr, 0, 0, NPY_ARRAY_ENSUREARRAY, nullptr))) {
    }
    int flags() const {
        return PyArray_FLAGS(arr());
    }
    const void* data() const {
        return PyArray_DATA(arr());
    }
    const ssize_t* strides() const {
        return (const ssize_t*)PyArray_STRIDES(arr());
    }
    object base() const {
        return borrow(PyArray_BASE(arr()));
    }
    PyArrayObject* arr() const {
        return (PyArrayObject*)m_ptr;
    }
    ssize_t size() const {
        return PyArray_SIZE(arr());
    }
    ssize_t ndim() const {
        return PyArray_NDIM(arr());
    }
    ssize_t shape(ssize_t i) const {
        if (i >= ndim())
            throw index_error("invalid axis");
        return PyArray_DIM(arr(), i);
    }
    const ssize_t* shape() const {
        return (const ssize_t*)PyArray_DIMS(arr());
    }
    ssize_t strides(ssize_t i) const {
        return PyArray_STRIDE(arr(), i);
    }
    ssize_t itemsize() const {
        return PyArray_ITEMSIZE(arr());
    }
    ssize_t nbytes() const {
        return PyArray_NBYTES(arr());
    }
    bool writeable() const {
        return PyArray_ISWRITEABLE(arr());
    }
    buffer_info request(bool writable = false) const {
        buffer_info b{PyArray_DATA(arr()), itemsize(), size(), ndim(), {}, {}};
        for (ssize_t i = 0; i < ndim(); i++) {
            b.shape.push_back(shape(i));
            b.strides.push_back(strides(i));
        }
        return b;
    }
    void resize(shape_container new_shape, bool refcheck = true) {
        PyArray_Dims d{(npy_intp*)new_shape.data(), (int)new_shape.size()};
        object r = steal(PyArray_Resize(arr(), &d, refcheck, NPY_ANYORDER));
        if (PyArray_Check(r.ptr()))
            static_cast<object&>(*this) = r;
    }
};

template <typename T, int ExtraFlags = NPY_ARRAY_FORCECAST>
class array_t : public array {
   public:
    using value_type = T;
    // like pybind11: convert (ENSUREARRAY | FORCECAST), no contiguity requirement
    static PyObject* raw(PyObject* p) {
        return PyArray_FromAny(
            p, PyArray_DescrFromType(npy_type<T>::value), 0, 0, NPY_ARRAY_ENSUREARRAY | ExtraFlags, nullptr);
    }
    array_t() {
        npy_intp n = 0;
        m_ptr = PyArray_SimpleNew(1, &n, npy_type<T>::value);
    }
    array_t(const object& o) {
        m_ptr = raw(o.ptr());
        if (!m_ptr)
            throw error_already_set();
    }
    array_t(const array_t& o) = default;
    array_t(array_t&& o) = default;
    array_t& operator=(const array_t& o) = default;
    array_t& operator=(array_t&& o) = default;
    template <typename U, int F2>
    array_t(const array_t<U, F2>& o) : array_t((const object&)o) {
    }
    template <typename I, typename = std::enable_if_t<std::is_integral_v<I>>>
    explicit array_t(I n) {
        npy_intp d = n;
        m_ptr = PyArray_SimpleNew(1, &d, npy_type<T>::value);
        if (!m_ptr)
            throw error_already_set();
    }
    explicit array_t(shape_container shape) {
        m_ptr = PyArray_SimpleNew(shape.size(), (npy_intp*)shape.data(), npy_type<T>::value);
        if (!m_ptr)
            throw error_already_set();
    }
    template <typename I, typename = std::enable_if_t<std::is_integral_v<I>>>
    array_t(I n, const T* data, const handle& base = handle()) {
        make(std::vector<ssize_t>{(ssize_t)n}, data, base);
    }
    array_t(shape_container shape, const T* data, const handle& base = handle()) {
        make(shape, data, base);
    }
    const T* data() const {
        return (const T*)PyArray_DATA(arr());
    }
    T* mutable_data() {
        if (!writeable())
            throw std::domain_error("array is not writeable");
        return (T*)PyArray_DATA(arr());
    }
    template <typename... I>
    const T* data(I... i) const {
        return (const T*)((const char*)PyArray_DATA(arr()) + offset(i...));
    }
    template <typename... I>
    T* mutable_data(I... i) {
        return (T*)((char*)mutable_data() + offset(i...));
    }
    template <typename... I>
    const T& at(I... i) const {
        check(i...);
        return *data(i...);
    }
    template <typename... I>
    T& mutable_at(I... i) {
        check(i...);
        return *mutable_data(i...);
    }
    static array_t ensure(handle h) {
        array_t r;
        static_cast<object&>(r) = object(raw(h.ptr()), object::steal_t{});
        if (!r)
            PyErr_Clear();
        return r;
    }
    template <ssize_t D>
    unchecked_reference<const T, D> unchecked() const {
        return ref<const T, D>();
    }
    template <ssize_t D>
    unchecked_reference<T, D> mutable_unchecked() {
        if (!writeable())
            throw std::domain_error("array is not writeable");
        return ref<T, D>();
    }

   private:
    template <typename... I>
    ssize_t offset(I... i) const {
        ssize_t off = 0, k = 0;
        ((off += (ssize_t)i * strides(k++)), ...);
        return off;
    }
    template <typename... I>
    void check(I... i) const {
        if ((ssize_t)sizeof...(I) != ndim())
            throw index_error("index dimension mismatch");
        ssize_t k = 0;
        auto one = [&](ssize_t x) {
            if (x >= shape(k))
                throw index_error("index " + std::to_string(x) + " is out of bounds for axis " + std::to_string(k));
            k++;
        };
        (one((ssize_t)i), ...);
    }
    void make(const std::vector<ssize_t>& shape, const T* data, const handle& base) {
        auto* d = PyArray_DescrFromType(npy_type<T>::value);
        object tmp(
            PyArray_NewFromDescr(
                &PyArray_Type,
                d,
                shape.size(),
                (npy_intp*)shape.data(),
                nullptr,
                const_cast<T*>(data),
                base && data ? NPY_ARRAY_WRITEABLE : 0,
                nullptr),
            object::steal_t{});
        if (!tmp)
            throw error_already_set();
        if (data) {
            if (base) {
                Py_INCREF(base.ptr());
                PyArray_SetBaseObject((PyArrayObject*)tmp.ptr(), base.ptr());
            } else {
                tmp = steal(PyArray_NewCopy((PyArrayObject*)tmp.ptr(), NPY_ANYORDER));
            }
        }
        m_ptr = tmp.release();
    }
    template <typename U, ssize_t D>
    unchecked_reference<U, D> ref() const {
        if (ndim() != D)
            throw std::domain_error(
                "array has incorrect number of dimensions: " + std::to_string(ndim()) + "; expected " +
                std::to_string(D));
        unchecked_reference<U, D> r{(const unsigned char*)PyArray_DATA(arr()), {}, {}};
        for (ssize_t i = 0; i < D; i++) {
            r.shp.push_back(shape(i));
            r.str.push_back(strides(i));
        }
        return r;
    }
};

template <>
struct caster<array> : object_caster<array> {
    bool load(handle h, bool) {
        if (!PyArray_Check(h.ptr()))
            return false;
        static_cast<object&>(v) = borrow(h.ptr());
        return true;
    }
};
template <typename T, int F>
struct caster<array_t<T, F>> {
    array_t<T, F> v;
    bool load(handle h, bool convert) {
        if (!convert) {
            if (!PyArray_Check(h.ptr()) ||
                !PyArray_EquivTypenums(PyArray_TYPE((PyArrayObject*)h.ptr()), npy_type<T>::value))
                return false;
        }
        PyObject* p = array_t<T, F>::raw(h.ptr());
        if (!p) {
            PyErr_Clear();
            return false;
        }
        static_cast<object&>(v) = object(p, object::steal_t{});
        return true;
    }
    array_t<T, F>& get() {
        return v;
    }
    static PyObject* cast(const handle& h) {
        Py_XINCREF(h.ptr());
        return h.ptr();
    }
};

}  // namespace pybind11
