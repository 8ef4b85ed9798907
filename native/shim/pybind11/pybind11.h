// A small, self-contained, source-compatible stand-in for the part of the
// pybind11 API that OpenSfM's bindings use.  The pybind11 submodule is empty in
// this sandbox and there is no network, so this header is what lets the real,
// unmodified binding sources of /repo be compiled into loadable modules.
// Conversions, overload resolution, return value policies, lifetimes and the
// exception mapping follow pybind11's documented semantics.
#pragma once

#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <structmember.h>

#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NO_IMPORT_ARRAY
#define PY_ARRAY_UNIQUE_SYMBOL vpb_numpy_api
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wattributes"
#pragma GCC diagnostic ignored "-Wunused-function"
#include <numpy/arrayobject.h>
#pragma GCC diagnostic pop

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <Eigen/Core>

#define PYBIND11_NAMESPACE pybind11
#define PYBIND11_NAMESPACE_BEGIN(name) namespace name {
#define PYBIND11_NAMESPACE_END(name) }
#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 11
#define PYBIND11_EXPORT __attribute__((visibility("default")))

// The numpy API table, one per shared object.
extern "C" {
__attribute__((weak, visibility("hidden"))) void** vpb_numpy_api = nullptr;
__attribute__((weak, visibility("hidden"))) int
    vpb_numpy_apiPyArray_RUNTIME_VERSION = 0;
}

namespace pybind11 {

using ssize_t = Py_ssize_t;

// ------------------------------------------------------------------ errors
class error_already_set : public std::exception {
 public:
  error_already_set() {
    PyErr_Fetch(&t_, &v_, &b_);
    PyErr_NormalizeException(&t_, &v_, &b_);
    if (v_) {
      PyObject* s = PyObject_Str(v_);
      if (s) {
        const char* c = PyUnicode_AsUTF8(s);
        if (c) what_ = c;
        Py_DECREF(s);
      }
      PyErr_Clear();
    }
  }
  error_already_set(const error_already_set& o)
      : t_(o.t_), v_(o.v_), b_(o.b_), what_(o.what_) {
    PyGILState_STATE g = PyGILState_Ensure();
    Py_XINCREF(t_);
    Py_XINCREF(v_);
    Py_XINCREF(b_);
    PyGILState_Release(g);
  }
  ~error_already_set() override {
    if (t_ || v_ || b_) {
      PyGILState_STATE g = PyGILState_Ensure();
      Py_XDECREF(t_);
      Py_XDECREF(v_);
      Py_XDECREF(b_);
      PyGILState_Release(g);
    }
  }
  void restore() {
    PyErr_Restore(t_, v_, b_);
    t_ = v_ = b_ = nullptr;
  }
  const char* what() const noexcept override { return what_.c_str(); }

 private:
  PyObject *t_ = nullptr, *v_ = nullptr, *b_ = nullptr;
  std::string what_ = "python error";
};

#define VPB_EXC(name, pyexc)                                       \
  class name : public std::runtime_error {                         \
   public:                                                         \
    using std::runtime_error::runtime_error;                       \
    name() : name("") {}                                           \
    void set_error() const { PyErr_SetString(pyexc, what()); }     \
  };
VPB_EXC(stop_iteration, PyExc_StopIteration)
VPB_EXC(index_error, PyExc_IndexError)
VPB_EXC(key_error, PyExc_KeyError)
VPB_EXC(value_error, PyExc_ValueError)
VPB_EXC(type_error, PyExc_TypeError)
VPB_EXC(cast_error, PyExc_RuntimeError)
VPB_EXC(reference_cast_error, PyExc_RuntimeError)
#undef VPB_EXC

enum class return_value_policy : uint8_t {
  automatic = 0,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};

// ------------------------------------------------------------------ handles
class handle;
class object;
template <typename T>
T cast(const handle& h);

namespace detail {
struct item_accessor;
}  // namespace detail

class handle {
 public:
  handle() = default;
  handle(PyObject* p) : m_ptr(p) {}
  PyObject* ptr() const { return m_ptr; }
  PyObject*& ptr() { return m_ptr; }
  const handle& inc_ref() const {
    Py_XINCREF(m_ptr);
    return *this;
  }
  const handle& dec_ref() const {
    Py_XDECREF(m_ptr);
    return *this;
  }
  explicit operator bool() const { return m_ptr != nullptr; }
  bool is_none() const { return m_ptr == Py_None; }
  bool is(const handle& o) const { return m_ptr == o.m_ptr; }
  template <typename T>
  T cast() const {
    return pybind11::cast<T>(*this);
  }
  detail::item_accessor operator[](const char* key) const;
  detail::item_accessor operator[](const handle& key) const;
  object attr(const char* name) const;

 protected:
  PyObject* m_ptr = nullptr;
};

class object : public handle {
 public:
  object() = default;
  struct stolen_t {};
  struct borrowed_t {};
  object(handle h, stolen_t) : handle(h) {}
  object(handle h, borrowed_t) : handle(h) { inc_ref(); }
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept : handle(o) { o.m_ptr = nullptr; }
  ~object() { dec_ref(); }
  object& operator=(const object& o) {
    o.inc_ref();
    PyObject* old = m_ptr;
    m_ptr = o.m_ptr;
    Py_XDECREF(old);
    return *this;
  }
  object& operator=(object&& o) noexcept {
    if (this != &o) {
      PyObject* old = m_ptr;
      m_ptr = o.m_ptr;
      o.m_ptr = nullptr;
      Py_XDECREF(old);
    }
    return *this;
  }
  handle release() {
    PyObject* t = m_ptr;
    m_ptr = nullptr;
    return handle(t);
  }
  static bool check_(handle h) { return h.ptr() != nullptr; }
};

template <typename T>
T reinterpret_borrow(handle h) {
  return T(h, object::borrowed_t{});
}
template <typename T>
T reinterpret_steal(handle h) {
  return T(h, object::stolen_t{});
}

inline object handle::attr(const char* name) const {
  PyObject* r = PyObject_GetAttrString(m_ptr, name);
  if (!r) throw error_already_set();
  return reinterpret_steal<object>(r);
}

class none : public object {
 public:
  none() : object(Py_None, borrowed_t{}) {}
};

class str : public object {
 public:
  using object::object;
  str() : object(PyUnicode_FromString(""), stolen_t{}) {}
  str(const char* c) : object(PyUnicode_FromString(c), stolen_t{}) {}
  str(const std::string& s)
      : object(PyUnicode_FromStringAndSize(s.data(), s.size()), stolen_t{}) {}
  static bool check_(handle h) { return h && PyUnicode_Check(h.ptr()); }
  operator std::string() const {
    Py_ssize_t n;
    const char* c = PyUnicode_AsUTF8AndSize(m_ptr, &n);
    if (!c) throw error_already_set();
    return std::string(c, n);
  }
};

class tuple : public object {
 public:
  using object::object;
  tuple() : object(PyTuple_New(0), stolen_t{}) {}
  explicit tuple(size_t n) : object(PyTuple_New(n), stolen_t{}) {}
  tuple(const object& o) : object() {
    if (PyTuple_Check(o.ptr())) {
      m_ptr = o.ptr();
      inc_ref();
    } else {
      m_ptr = PySequence_Tuple(o.ptr());
      if (!m_ptr) throw error_already_set();
    }
  }
  size_t size() const { return PyTuple_Size(m_ptr); }
  static bool check_(handle h) { return h && PyTuple_Check(h.ptr()); }
  object operator[](size_t i) const {
    PyObject* r = PyTuple_GetItem(m_ptr, i);
    if (!r) throw error_already_set();
    return reinterpret_borrow<object>(r);
  }
};

class list : public object {
 public:
  using object::object;
  list() : object(PyList_New(0), stolen_t{}) {}
  explicit list(size_t n) : object(PyList_New(n), stolen_t{}) {}
  size_t size() const { return PyList_Size(m_ptr); }
  static bool check_(handle h) { return h && PyList_Check(h.ptr()); }
  template <typename T>
  void append(T&& v);
  object operator[](size_t i) const {
    PyObject* r = PyList_GetItem(m_ptr, i);
    if (!r) throw error_already_set();
    return reinterpret_borrow<object>(r);
  }
};

class dict : public object {
 public:
  using object::object;
  dict() : object(PyDict_New(), stolen_t{}) {}
  size_t size() const { return PyDict_Size(m_ptr); }
  static bool check_(handle h) { return h && PyDict_Check(h.ptr()); }
  bool contains(const char* k) const {
    return PyMapping_HasKeyString(m_ptr, k) == 1;
  }
};

class iterator : public object {
 public:
  using object::object;
  iterator(const object& o) : object(o) {}
  iterator(object&& o) : object(std::move(o)) {}
  static bool check_(handle h) { return h && PyIter_Check(h.ptr()); }
};

class bytes : public object {
 public:
  using object::object;
  bytes(const std::string& s)
      : object(PyBytes_FromStringAndSize(s.data(), s.size()), stolen_t{}) {}
  static bool check_(handle h) { return h && PyBytes_Check(h.ptr()); }
};

inline size_t len(handle h) {
  Py_ssize_t n = PyObject_Size(h.ptr());
  if (n < 0) throw error_already_set();
  return static_cast<size_t>(n);
}

namespace detail {
// obj[key] as an lvalue
struct item_accessor {
  object obj, key;
  object get() const {
    PyObject* r = PyObject_GetItem(obj.ptr(), key.ptr());
    if (!r) throw error_already_set();
    return reinterpret_steal<object>(r);
  }
  operator object() const { return get(); }
  template <typename T>
  T cast() const {
    return get().template cast<T>();
  }
  template <typename T>
  void operator=(T&& v) &&;
  item_accessor operator[](const char* k) const {
    return item_accessor{get(), str(k)};
  }
};
}  // namespace detail
inline detail::item_accessor handle::operator[](const char* key) const {
  return detail::item_accessor{reinterpret_borrow<object>(*this), str(key)};
}
inline detail::item_accessor handle::operator[](const handle& key) const {
  return detail::item_accessor{reinterpret_borrow<object>(*this),
                               reinterpret_borrow<object>(key)};
}

// ------------------------------------------------------------------ GIL
class gil_scoped_release {
 public:
  gil_scoped_release() : s_(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s_); }
  gil_scoped_release(const gil_scoped_release&) = delete;

 private:
  PyThreadState* s_;
};
class gil_scoped_acquire {
 public:
  gil_scoped_acquire() : s_(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s_); }
  gil_scoped_acquire(const gil_scoped_acquire&) = delete;

 private:
  PyGILState_STATE s_;
};

// ------------------------------------------------------------------ annotations
struct arg;
struct arg_v;
struct arg {
  const char* name;
  constexpr explicit arg(const char* n) : name(n) {}
  template <typename T>
  arg_v operator=(T&& v) const;
};
struct arg_v {
  const char* name;
  object value;
};
struct module_local {
  module_local(bool = true) {}
};
template <size_t Nurse, size_t Patient>
struct keep_alive {};
template <typename... Ts>
struct call_guard {};
struct is_method {
  handle cls;
};
struct name_t {
  const char* v;
};
struct doc {
  const char* v;
  doc(const char* s) : v(s) {}
};

// ------------------------------------------------------------------ registry
namespace detail {

template <typename T>
using intrinsic_t = std::remove_cv_t<std::remove_pointer_t<
    std::remove_cv_t<std::remove_reference_t<T>>>>;

struct type_info {
  PyTypeObject* type = nullptr;
  void (*dealloc)(void*) = nullptr;
  std::string cpp_name;
};

struct instance {
  PyObject_HEAD
  void* value;
  type_info* info;
  bool owned;
  PyObject* weakrefs;
  std::vector<PyObject*>* patients;
};

struct internals {
  std::unordered_map<std::string, type_info*> types;
  std::unordered_map<PyTypeObject*, type_info*> by_type;
  std::unordered_multimap<const void*, instance*> instances;
};

inline internals& get_internals() {
  static internals* p = nullptr;
  if (p) return *p;
  const char* key = "__vpb_internals_v1__";
  PyObject* builtins = PyEval_GetBuiltins();
  PyObject* cap = PyDict_GetItemString(builtins, key);
  if (cap) {
    p = static_cast<internals*>(PyCapsule_GetPointer(cap, nullptr));
  } else {
    p = new internals();
    cap = PyCapsule_New(p, nullptr, nullptr);
    PyDict_SetItemString(builtins, key, cap);
    Py_DECREF(cap);
  }
  return *p;
}

inline type_info* get_type_info(const std::type_info& ti, bool do_throw) {
  auto& t = get_internals().types;
  auto it = t.find(ti.name());
  if (it != t.end()) return it->second;
  if (do_throw) {
    throw type_error(std::string("Unregistered type : ") + ti.name());
  }
  return nullptr;
}

template <typename T>
type_info* type_of() {
  static type_info* r = nullptr;
  if (!r) r = get_type_info(typeid(T), false);
  return r;
}

inline instance* find_instance(const void* ptr, type_info* info) {
  auto& m = get_internals().instances;
  auto range = m.equal_range(ptr);
  for (auto it = range.first; it != range.second; ++it) {
    if (it->second->info == info) return it->second;
  }
  return nullptr;
}
inline void register_instance(instance* i) {
  get_internals().instances.emplace(i->value, i);
}
inline void deregister_instance(instance* i) {
  auto& m = get_internals().instances;
  auto range = m.equal_range(i->value);
  for (auto it = range.first; it != range.second; ++it) {
    if (it->second == i) {
      m.erase(it);
      return;
    }
  }
}
inline bool is_instance_of_ours(PyObject* o) {
  for (PyTypeObject* t = Py_TYPE(o); t; t = t->tp_base) {
    if (get_internals().by_type.count(t)) return true;
  }
  return false;
}
inline void keep_alive_impl(handle nurse, handle patient) {
  if (!nurse || !patient || nurse.is_none() || patient.is_none()) return;
  if (is_instance_of_ours(nurse.ptr())) {
    auto* i = reinterpret_cast<instance*>(nurse.ptr());
    if (!i->patients) i->patients = new std::vector<PyObject*>();
    Py_INCREF(patient.ptr());
    i->patients->push_back(patient.ptr());
    return;
  }
  // Any other object: the patient lives as long as a weak reference can tell.
  static PyMethodDef md = {"_drop",
                           [](PyObject* self, PyObject* wr) -> PyObject* {
                             (void)self;
                             Py_DECREF(wr);
                             Py_RETURN_NONE;
                           },
                           METH_O, nullptr};
  PyObject* cb = PyCFunction_New(&md, patient.ptr());
  if (!cb) throw error_already_set();
  PyObject* wr = PyWeakref_NewRef(nurse.ptr(), cb);
  Py_DECREF(cb);
  if (!wr) throw error_already_set();
}

extern "C" inline PyObject* vpb_new(PyTypeObject* type, PyObject*, PyObject*) {
  auto* self = reinterpret_cast<instance*>(type->tp_alloc(type, 0));
  if (!self) return nullptr;
  self->value = nullptr;
  self->owned = true;
  self->weakrefs = nullptr;
  self->patients = nullptr;
  self->info = nullptr;
  for (PyTypeObject* t = type; t; t = t->tp_base) {
    auto it = get_internals().by_type.find(t);
    if (it != get_internals().by_type.end()) {
      self->info = it->second;
      break;
    }
  }
  return reinterpret_cast<PyObject*>(self);
}
extern "C" inline int vpb_init(PyObject* self, PyObject*, PyObject*) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!",
               Py_TYPE(self)->tp_name);
  return -1;
}
extern "C" inline void vpb_dealloc(PyObject* o) {
  PyTypeObject* type = Py_TYPE(o);
  auto* self = reinterpret_cast<instance*>(o);
  if (self->weakrefs) PyObject_ClearWeakRefs(o);
  if (self->value) {
    deregister_instance(self);
    if (self->owned && self->info && self->info->dealloc) {
      PyObject *t, *v, *b;
      PyErr_Fetch(&t, &v, &b);
      self->info->dealloc(self->value);
      PyErr_Restore(t, v, b);
    }
    self->value = nullptr;
  }
  if (self->patients) {
    std::vector<PyObject*> p = std::move(*self->patients);
    delete self->patients;
    self->patients = nullptr;
    for (auto* x : p) Py_DECREF(x);
  }
  type->tp_free(o);
  Py_DECREF(type);
}

inline instance* make_instance(type_info* info, void* value, bool owned) {
  auto* i =
      reinterpret_cast<instance*>(vpb_new(info->type, nullptr, nullptr));
  if (!i) throw error_already_set();
  i->value = value;
  i->owned = owned;
  i->info = info;
  register_instance(i);
  return i;
}

// ------------------------------------------------------------------ casters
template <typename T, typename SFINAE = void>
struct type_caster;
template <typename T>
using make_caster = type_caster<intrinsic_t<T>>;

template <typename T>
struct is_generic_caster {
  template <typename U>
  static std::true_type f(typename U::generic_tag*);
  template <typename U>
  static std::false_type f(...);
  static constexpr bool value = decltype(f<make_caster<T>>(nullptr))::value;
};

template <typename Return>
return_value_policy policy_override(return_value_policy p) {
  if constexpr (!std::is_lvalue_reference_v<Return> &&
                !std::is_pointer_v<std::remove_reference_t<Return>>) {
    if constexpr (is_generic_caster<Return>::value) {
      return return_value_policy::move;
    }
  }
  return p;
}

// registered classes
template <typename T, typename SFINAE>
struct type_caster {
  using generic_tag = void;
  void* ptr = nullptr;

  bool load(handle src, bool convert) {
    if (!src) return false;
    type_info* info = type_of<T>();
    if (!info) return false;
    if (src.is_none()) {
      if (!convert) return false;
      ptr = nullptr;
      return true;
    }
    if (!PyObject_TypeCheck(src.ptr(), info->type)) return false;
    auto* i = reinterpret_cast<instance*>(src.ptr());
    if (!i->value) {
      throw type_error(info->cpp_name + ": instance was never initialised");
    }
    ptr = i->value;
    return true;
  }

  static handle cast(const T* src, return_value_policy policy, handle parent) {
    if (!src) return none().release();
    type_info* info = type_of<T>();
    if (!info) {
      throw type_error(std::string("Unregistered type : ") + typeid(T).name());
    }
    if (instance* e = find_instance(src, info)) {
      return handle(reinterpret_cast<PyObject*>(e)).inc_ref();
    }
    switch (policy) {
      case return_value_policy::automatic:
      case return_value_policy::take_ownership:
        return reinterpret_cast<PyObject*>(
            make_instance(info, const_cast<T*>(src), true));
      case return_value_policy::automatic_reference:
      case return_value_policy::reference:
        return reinterpret_cast<PyObject*>(
            make_instance(info, const_cast<T*>(src), false));
      case return_value_policy::reference_internal: {
        handle r(reinterpret_cast<PyObject*>(
            make_instance(info, const_cast<T*>(src), false)));
        keep_alive_impl(r, parent);
        return r;
      }
      case return_value_policy::copy:
        return copy_of(info, src);
      case return_value_policy::move:
        return move_of(info, const_cast<T*>(src));
    }
    throw cast_error("unhandled return_value_policy");
  }
  static handle cast(const T& src, return_value_policy policy, handle parent) {
    if (policy == return_value_policy::automatic ||
        policy == return_value_policy::automatic_reference) {
      policy = return_value_policy::copy;
    }
    return cast(&src, policy, parent);
  }
  static handle cast(T&& src, return_value_policy, handle parent) {
    return cast(const_cast<const T*>(&src), return_value_policy::move, parent);
  }
  static handle cast(T& src, return_value_policy policy, handle parent) {
    return cast(const_cast<const T&>(src), policy, parent);
  }
  static handle cast(T* src, return_value_policy policy, handle parent) {
    return cast(const_cast<const T*>(src), policy, parent);
  }

 private:
  static handle copy_of(type_info* info, const T* src) {
    if constexpr (std::is_copy_constructible_v<T>) {
      return reinterpret_cast<PyObject*>(make_instance(info, new T(*src), true));
    } else {
      throw cast_error(
          "return_value_policy = copy, but type is non-copyable!");
    }
  }
  static handle move_of(type_info* info, T* src) {
    if constexpr (std::is_move_constructible_v<T>) {
      return reinterpret_cast<PyObject*>(
          make_instance(info, new T(std::move(*src)), true));
    } else {
      throw cast_error(
          "return_value_policy = move, but type is neither movable nor "
          "copyable!");
    }
  }
};

// the value a caster holds, as a function's parameter type
template <typename T>
decltype(auto) cast_op(make_caster<T>& c) {
  using I = intrinsic_t<T>;
  using NR = std::remove_reference_t<T>;
  if constexpr (is_generic_caster<T>::value) {
    if constexpr (std::is_pointer_v<NR>) {
      return static_cast<I*>(c.ptr);
    } else {
      if (!c.ptr) throw reference_cast_error();
      return static_cast<I&>(*static_cast<I*>(c.ptr));
    }
  } else {
    if constexpr (std::is_pointer_v<NR>) {
      return &c.value;
    } else if constexpr (std::is_lvalue_reference_v<T>) {
      return static_cast<I&>(c.value);
    } else {
      return static_cast<I&&>(c.value);
    }
  }
}

// arithmetic
template <typename T>
struct type_caster<
    T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool> &&
                        !std::is_same_v<T, char>>> {
  T value{};
  bool load(handle src, bool convert) {
    if (!src) return false;
    if constexpr (std::is_floating_point_v<T>) {
      if (!convert && !PyFloat_Check(src.ptr())) return false;
      double d = PyFloat_AsDouble(src.ptr());
      if (d == -1.0 && PyErr_Occurred()) {
        PyErr_Clear();
        if (convert && PyNumber_Check(src.ptr())) {
          object tmp = reinterpret_steal<object>(PyNumber_Float(src.ptr()));
          PyErr_Clear();
          return load(tmp, false);
        }
        return false;
      }
      value = static_cast<T>(d);
      return true;
    } else {
      if (PyFloat_Check(src.ptr())) return false;
      if (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr())) {
        return false;
      }
      object index;
      handle s = src;
      if (!PyLong_Check(src.ptr())) {
        index = reinterpret_steal<object>(PyNumber_Index(src.ptr()));
        if (!index) {
          PyErr_Clear();
          if (!convert) return false;
        } else {
          s = index;
        }
      }
      bool err = false;
      if constexpr (std::is_unsigned_v<T>) {
        unsigned long long v = PyLong_AsUnsignedLongLong(s.ptr());
        err = (v == (unsigned long long)-1) && PyErr_Occurred();
        if (!err && v > std::numeric_limits<T>::max()) {
          return false;
        }
        value = static_cast<T>(v);
      } else {
        long long v = PyLong_AsLongLong(s.ptr());
        err = v == -1 && PyErr_Occurred();
        if (!err && (v > std::numeric_limits<T>::max() ||
                     v < std::numeric_limits<T>::min())) {
          return false;
        }
        value = static_cast<T>(v);
      }
      if (err) {
        bool te = PyErr_ExceptionMatches(PyExc_TypeError);
        PyErr_Clear();
        if (te && convert && PyNumber_Check(src.ptr())) {
          object tmp = reinterpret_steal<object>(PyNumber_Long(src.ptr()));
          PyErr_Clear();
          return load(tmp, false);
        }
        return false;
      }
      return true;
    }
  }
  static handle cast(T v, return_value_policy, handle) {
    if constexpr (std::is_floating_point_v<T>) {
      return PyFloat_FromDouble(v);
    } else if constexpr (std::is_unsigned_v<T>) {
      return PyLong_FromUnsignedLongLong(v);
    } else {
      return PyLong_FromLongLong(v);
    }
  }
  static handle cast(const T* v, return_value_policy p, handle h) {
    if (!v) return none().release();
    return cast(*v, p, h);
  }
};

template <>
struct type_caster<bool> {
  bool value = false;
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.ptr() == Py_True) {
      value = true;
      return true;
    }
    if (src.ptr() == Py_False) {
      value = false;
      return true;
    }
    const std::string tn = Py_TYPE(src.ptr())->tp_name;
    if (convert || tn == "numpy.bool" || tn == "numpy.bool_") {
      int r = -1;
      if (src.is_none()) {
        r = 0;
      } else if (Py_TYPE(src.ptr())->tp_as_number &&
                 Py_TYPE(src.ptr())->tp_as_number->nb_bool) {
        r = Py_TYPE(src.ptr())->tp_as_number->nb_bool(src.ptr());
      }
      if (r == 0 || r == 1) {
        value = r != 0;
        return true;
      }
      PyErr_Clear();
    }
    return false;
  }
  static handle cast(bool v, return_value_policy, handle) {
    return handle(v ? Py_True : Py_False).inc_ref();
  }
};

template <>
struct type_caster<std::string> {
  std::string value;
  bool load(handle src, bool) {
    if (!src) return false;
    if (PyUnicode_Check(src.ptr())) {
      Py_ssize_t n;
      const char* c = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
      if (!c) {
        PyErr_Clear();
        return false;
      }
      value.assign(c, n);
      return true;
    }
    if (PyBytes_Check(src.ptr())) {
      value.assign(PyBytes_AS_STRING(src.ptr()), PyBytes_GET_SIZE(src.ptr()));
      return true;
    }
    if (PyByteArray_Check(src.ptr())) {
      value.assign(PyByteArray_AS_STRING(src.ptr()),
                   PyByteArray_GET_SIZE(src.ptr()));
      return true;
    }
    return false;
  }
  static handle cast(const std::string& s, return_value_policy, handle) {
    PyObject* r = PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr);
    if (!r) throw error_already_set();
    return r;
  }
  static handle cast(const std::string* s, return_value_policy p, handle h) {
    if (!s) return none().release();
    return cast(*s, p, h);
  }
};
template <>
struct type_caster<char> {
  std::string value;
  bool load(handle src, bool c) {
    type_caster<std::string> s;
    if (!s.load(src, c)) return false;
    value = s.value;
    return true;
  }
  static handle cast(const char* s, return_value_policy, handle) {
    if (!s) return none().release();
    return PyUnicode_FromString(s);
  }
  static handle cast(char c, return_value_policy, handle) {
    return PyUnicode_FromStringAndSize(&c, 1);
  }
};

// None-like C++ values
template <>
struct type_caster<std::nullopt_t> {
  static handle cast(std::nullopt_t, return_value_policy, handle) {
    return none().release();
  }
};
template <>
struct type_caster<std::nullptr_t> {
  static handle cast(std::nullptr_t, return_value_policy, handle) {
    return none().release();
  }
};

// python objects
template <>
struct type_caster<handle> {
  handle value;
  bool load(handle src, bool) {
    value = src;
    return bool(src);
  }
  static handle cast(const handle& v, return_value_policy, handle) {
    return v.inc_ref();
  }
};
#define VPB_PYOBJ_CASTER(T)                                          \
  template <>                                                        \
  struct type_caster<T> {                                            \
    T value;                                                         \
    bool load(handle src, bool) {                                    \
      if (!src || !T::check_(src)) return false;                     \
      value = reinterpret_borrow<T>(src);                            \
      return true;                                                   \
    }                                                                \
    static handle cast(const T& v, return_value_policy, handle) {    \
      return handle(v.ptr()).inc_ref();                              \
    }                                                                \
  };
VPB_PYOBJ_CASTER(object)
VPB_PYOBJ_CASTER(str)
VPB_PYOBJ_CASTER(tuple)
VPB_PYOBJ_CASTER(list)
VPB_PYOBJ_CASTER(dict)
template <>
struct type_caster<iterator> {
  iterator value{object()};
  bool load(handle src, bool) {
    if (!iterator::check_(src)) return false;
    value = iterator(reinterpret_borrow<object>(src));
    return true;
  }
  static handle cast(const iterator& v, return_value_policy, handle) {
    return handle(v.ptr()).inc_ref();
  }
};
template <>
struct type_caster<none> {
  static handle cast(const none& v, return_value_policy, handle) {
    return handle(v.ptr()).inc_ref();
  }
};

template <typename T>
handle cast_any(T&& v, return_value_policy policy, handle parent) {
  return make_caster<T>::cast(std::forward<T>(v), policy, parent);
}

// load a python value, consuming it as T
template <typename T>
bool load_into(handle src, bool convert, make_caster<T>& c) {
  return c.load(src, convert);
}

// unique_ptr
template <typename T, typename D>
struct type_caster<std::unique_ptr<T, D>> {
  static handle cast(std::unique_ptr<T, D>&& v, return_value_policy,
                     handle parent) {
    (void)parent;
    if (!v) return none().release();
    type_info* info = type_of<T>();
    if (!info) {
      throw type_error(std::string("Unregistered type : ") + typeid(T).name());
    }
    T* p = v.release();
    return reinterpret_cast<PyObject*>(make_instance(info, p, true));
  }
};

// ---- STL
template <typename T>
return_value_policy elem_policy(return_value_policy p) {
  return policy_override<T>(p);
}

template <typename Type, typename Value>
struct list_caster {
  Type value;
  bool load(handle src, bool convert) {
    if (!src || !PySequence_Check(src.ptr()) || PyBytes_Check(src.ptr()) ||
        PyUnicode_Check(src.ptr())) {
      return false;
    }
    value.clear();
    Py_ssize_t n = PySequence_Size(src.ptr());
    if (n < 0) {
      PyErr_Clear();
      return false;
    }
    for (Py_ssize_t i = 0; i < n; ++i) {
      object it = reinterpret_steal<object>(PySequence_GetItem(src.ptr(), i));
      if (!it) throw error_already_set();
      make_caster<Value> c;
      if (!c.load(it, convert)) return false;
      value.push_back(cast_op<Value>(c));
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    if constexpr (std::is_pointer_v<std::remove_reference_t<T>>) {
      if (!src) return none().release();
      return cast(*src, policy, parent);
    } else {
      if constexpr (!std::is_lvalue_reference_v<T>) {
        policy = policy_override<Value>(policy);
      }
      object l = reinterpret_steal<object>(PyList_New(src.size()));
      Py_ssize_t i = 0;
      for (auto&& v : src) {
        handle h;
        if constexpr (std::is_lvalue_reference_v<T>) {
          h = make_caster<Value>::cast(v, policy, parent);
        } else {
          h = make_caster<Value>::cast(std::move(v), policy, parent);
        }
        if (!h) throw error_already_set();
        PyList_SET_ITEM(l.ptr(), i++, h.ptr());
      }
      return l.release();
    }
  }
};
template <typename T, typename A>
struct type_caster<std::vector<T, A>> : list_caster<std::vector<T, A>, T> {};
template <typename T, typename A>
struct type_caster<std::list<T, A>> : list_caster<std::list<T, A>, T> {};

template <typename Type, typename Key>
struct set_caster {
  Type value;
  bool load(handle src, bool convert) {
    if (!src || !PyAnySet_Check(src.ptr())) return false;
    value.clear();
    object it = reinterpret_steal<object>(PyObject_GetIter(src.ptr()));
    while (object e = reinterpret_steal<object>(PyIter_Next(it.ptr()))) {
      make_caster<Key> c;
      if (!c.load(e, convert)) return false;
      value.insert(cast_op<Key>(c));
    }
    if (PyErr_Occurred()) throw error_already_set();
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    if constexpr (!std::is_lvalue_reference_v<T>) {
      policy = policy_override<Key>(policy);
    }
    object s = reinterpret_steal<object>(PySet_New(nullptr));
    for (auto&& v : src) {
      object e = reinterpret_steal<object>(
          make_caster<Key>::cast(v, policy, parent));
      if (!e || PySet_Add(s.ptr(), e.ptr()) != 0) throw error_already_set();
    }
    return s.release();
  }
};
template <typename T, typename C, typename A>
struct type_caster<std::set<T, C, A>> : set_caster<std::set<T, C, A>, T> {};
template <typename T, typename H, typename E, typename A>
struct type_caster<std::unordered_set<T, H, E, A>>
    : set_caster<std::unordered_set<T, H, E, A>, T> {};

template <typename Type, typename Key, typename Value>
struct map_caster {
  Type value;
  bool load(handle src, bool convert) {
    if (!src || !PyDict_Check(src.ptr())) return false;
    value.clear();
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(src.ptr(), &pos, &k, &v)) {
      make_caster<Key> kc;
      make_caster<Value> vc;
      if (!kc.load(k, convert) || !vc.load(v, convert)) return false;
      value.emplace(cast_op<Key>(kc), cast_op<Value>(vc));
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    if constexpr (std::is_pointer_v<std::remove_reference_t<T>>) {
      if (!src) return none().release();
      return cast(*src, policy, parent);
    } else {
      object d = reinterpret_steal<object>(PyDict_New());
      return_value_policy pk = policy, pv = policy;
      if constexpr (!std::is_lvalue_reference_v<T>) {
        pk = policy_override<Key>(policy);
        pv = policy_override<Value>(policy);
      }
      for (auto&& kv : src) {
        object k = reinterpret_steal<object>(
            make_caster<Key>::cast(kv.first, pk, parent));
        object v = reinterpret_steal<object>([&]() -> handle {
          if constexpr (std::is_lvalue_reference_v<T>) {
            return make_caster<Value>::cast(kv.second, pv, parent);
          } else {
            return make_caster<Value>::cast(std::move(kv.second), pv, parent);
          }
        }());
        if (!k || !v || PyDict_SetItem(d.ptr(), k.ptr(), v.ptr()) != 0) {
          throw error_already_set();
        }
      }
      return d.release();
    }
  }
};
template <typename K, typename V, typename C, typename A>
struct type_caster<std::map<K, V, C, A>>
    : map_caster<std::map<K, V, C, A>, K, V> {};
template <typename K, typename V, typename H, typename E, typename A>
struct type_caster<std::unordered_map<K, V, H, E, A>>
    : map_caster<std::unordered_map<K, V, H, E, A>, K, V> {};

template <typename T>
struct type_caster<std::optional<T>> {
  std::optional<T> value;
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.is_none()) {
      value.reset();
      return true;
    }
    make_caster<T> c;
    if (!c.load(src, convert)) return false;
    value.emplace(cast_op<T>(c));
    return true;
  }
  template <typename U>
  static handle cast(U&& src, return_value_policy policy, handle parent) {
    if (!src) return none().release();
    if constexpr (!std::is_lvalue_reference_v<U>) {
      policy = policy_override<T>(policy);
    }
    return make_caster<T>::cast(*std::forward<U>(src), policy, parent);
  }
};

template <typename Tuple, typename... Ts>
struct tuple_caster {
  // A tuple of registered (possibly not default constructible) classes is
  // materialised once all the elements are loaded.
  using casters_t = std::tuple<make_caster<Ts>...>;
  casters_t casters;
  bool load(handle src, bool convert) {
    if (!src || !PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr()) ||
        PyBytes_Check(src.ptr())) {
      return false;
    }
    if (PySequence_Size(src.ptr()) != (Py_ssize_t)sizeof...(Ts)) {
      PyErr_Clear();
      return false;
    }
    return load_impl(src, convert, std::index_sequence_for<Ts...>{});
  }
  template <size_t... Is>
  bool load_impl(handle src, bool convert, std::index_sequence<Is...>) {
    bool ok = true;
    ((ok = ok && load_one<Is>(src, convert)), ...);
    if (!ok) return false;
    value.emplace(cast_op<Ts>(std::get<Is>(casters))...);
    return true;
  }
  template <size_t I>
  bool load_one(handle src, bool convert) {
    object it = reinterpret_steal<object>(PySequence_GetItem(src.ptr(), I));
    if (!it) {
      PyErr_Clear();
      return false;
    }
    return std::get<I>(casters).load(it, convert);
  }
  struct holder {
    std::optional<Tuple> v;
    template <typename... A>
    void emplace(A&&... a) {
      v.emplace(std::forward<A>(a)...);
    }
    operator Tuple&() { return *v; }
    operator Tuple&&() { return std::move(*v); }
  } value;
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    return cast_impl(std::forward<T>(src), policy, parent,
                     std::index_sequence_for<Ts...>{});
  }
  template <typename T, size_t... Is>
  static handle cast_impl(T&& src, return_value_policy policy, handle parent,
                          std::index_sequence<Is...>) {
    object e[] = {reinterpret_steal<object>(make_caster<Ts>::cast(
        std::get<Is>(std::forward<T>(src)), policy, parent))...};
    object r = reinterpret_steal<object>(PyTuple_New(sizeof...(Ts)));
    Py_ssize_t i = 0;
    for (auto& x : e) {
      if (!x) throw error_already_set();
      PyTuple_SET_ITEM(r.ptr(), i++, x.release().ptr());
    }
    return r.release();
  }
};
template <typename A, typename B>
struct type_caster<std::pair<A, B>> : tuple_caster<std::pair<A, B>, A, B> {};
template <typename... Ts>
struct type_caster<std::tuple<Ts...>> : tuple_caster<std::tuple<Ts...>, Ts...> {
};

}  // namespace detail

// ------------------------------------------------------------------ cast()
template <typename T>
T cast(const handle& h) {
  static_assert(!std::is_reference_v<T> || detail::is_generic_caster<T>::value);
  detail::make_caster<T> c;
  if (!c.load(h, true)) {
    throw cast_error(std::string("Unable to cast Python instance of type ") +
                     (h ? Py_TYPE(h.ptr())->tp_name : "NULL") +
                     " to C++ type '" + typeid(T).name() + "'");
  }
  return static_cast<T>(detail::cast_op<T>(c));
}
template <typename T, std::enable_if_t<
                          !std::is_base_of_v<handle, std::decay_t<T>>, int> = 0>
object cast(T&& v,
            return_value_policy policy = return_value_policy::automatic_reference,
            handle parent = handle()) {
  if (policy == return_value_policy::automatic) {
    policy = std::is_pointer_v<std::remove_reference_t<T>>
                 ? return_value_policy::take_ownership
                 : (std::is_lvalue_reference_v<T> ? return_value_policy::copy
                                                  : return_value_policy::move);
  } else if (policy == return_value_policy::automatic_reference) {
    policy = std::is_pointer_v<std::remove_reference_t<T>>
                 ? return_value_policy::reference
                 : (std::is_lvalue_reference_v<T> ? return_value_policy::copy
                                                  : return_value_policy::move);
  }
  handle h = detail::make_caster<T>::cast(std::forward<T>(v), policy, parent);
  if (!h) throw error_already_set();
  return reinterpret_steal<object>(h);
}
template <typename T,
          std::enable_if_t<std::is_base_of_v<handle, std::decay_t<T>>, int> = 0>
object cast(T&& v) {
  return reinterpret_borrow<object>(v);
}

template <typename T>
void list::append(T&& v) {
  object o = pybind11::cast(std::forward<T>(v));
  PyList_Append(m_ptr, o.ptr());
}
template <typename T>
void detail::item_accessor::operator=(T&& v) && {
  object o = pybind11::cast(std::forward<T>(v));
  if (PyObject_SetItem(obj.ptr(), key.ptr(), o.ptr()) != 0) {
    throw error_already_set();
  }
}
template <typename T>
arg_v arg::operator=(T&& v) const {
  return arg_v{name, pybind11::cast(std::forward<T>(v))};
}

template <return_value_policy policy = return_value_policy::automatic_reference,
          typename... Args>
tuple make_tuple(Args&&... args) {
  object e[] = {pybind11::cast(std::forward<Args>(args))...};
  tuple r(sizeof...(Args));
  Py_ssize_t i = 0;
  for (auto& x : e) PyTuple_SET_ITEM(r.ptr(), i++, x.release().ptr());
  return r;
}

// ------------------------------------------------------------------ numpy
namespace detail {
inline void ensure_numpy() {
  if (vpb_numpy_api) return;
  PyObject* m = PyImport_ImportModule("numpy._core._multiarray_umath");
  if (!m) throw error_already_set();
  PyObject* c = PyObject_GetAttrString(m, "_ARRAY_API");
  Py_DECREF(m);
  if (!c) throw error_already_set();
  vpb_numpy_api = static_cast<void**>(PyCapsule_GetPointer(c, nullptr));
  Py_DECREF(c);
  vpb_numpy_apiPyArray_RUNTIME_VERSION =
      static_cast<int>(PyArray_GetNDArrayCFeatureVersion());
}
template <typename T>
constexpr int npy_type() {
  if constexpr (std::is_same_v<T, float>) return NPY_FLOAT;
  else if constexpr (std::is_same_v<T, double>) return NPY_DOUBLE;
  else if constexpr (std::is_same_v<T, int>) return NPY_INT;
  else if constexpr (std::is_same_v<T, unsigned int>) return NPY_UINT;
  else if constexpr (std::is_same_v<T, long>) return NPY_LONG;
  else if constexpr (std::is_same_v<T, unsigned long>) return NPY_ULONG;
  else if constexpr (std::is_same_v<T, unsigned char>) return NPY_UBYTE;
  else if constexpr (std::is_same_v<T, signed char>) return NPY_BYTE;
  else if constexpr (std::is_same_v<T, short>) return NPY_SHORT;
  else if constexpr (std::is_same_v<T, unsigned short>) return NPY_USHORT;
  else if constexpr (std::is_same_v<T, bool>) return NPY_BOOL;
  else static_assert(!sizeof(T), "dtype");
}
}  // namespace detail

class array : public object {
 public:
  using object::object;
  enum { c_style = NPY_ARRAY_C_CONTIGUOUS, f_style = NPY_ARRAY_F_CONTIGUOUS,
         forcecast = NPY_ARRAY_FORCECAST };
  array() = default;
  static bool check_(handle h) {
    detail::ensure_numpy();
    return h && PyArray_Check(h.ptr());
  }
  PyArrayObject* a() const { return reinterpret_cast<PyArrayObject*>(m_ptr); }
  ssize_t ndim() const { return PyArray_NDIM(a()); }
  ssize_t size() const { return PyArray_SIZE(a()); }
  ssize_t shape(ssize_t i) const {
    if (i >= ndim()) {
      throw index_error("invalid axis: " + std::to_string(i) + " (ndim = " +
                        std::to_string(ndim()) + ")");
    }
    return PyArray_DIM(a(), i);
  }
  bool writeable() const { return PyArray_ISWRITEABLE(a()); }
};

template <typename T, int Flags = array::forcecast>
class array_t : public array {
 public:
  using array::array;
  array_t() : array_t(std::vector<npy_intp>{0}) {}
  array_t(const std::vector<npy_intp>& shape) {
    detail::ensure_numpy();
    std::vector<npy_intp> s = shape;
    m_ptr = PyArray_SimpleNew(s.size(), s.data(), detail::npy_type<T>());
    if (!m_ptr) throw error_already_set();
  }
  template <typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
  explicit array_t(I n)
      : array_t(std::vector<npy_intp>{static_cast<npy_intp>(n)}) {}
  template <typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
  array_t(std::initializer_list<I> shape)
      : array_t(std::vector<npy_intp>(shape.begin(), shape.end())) {}
  template <int F2>
  array_t(const array_t<T, F2>& o) {
    m_ptr = ensure_raw(o);
    if (!m_ptr) throw error_already_set();
  }
  const T* data() const { return static_cast<const T*>(PyArray_DATA(a())); }
  T* mutable_data() {
    if (!writeable()) throw std::domain_error("array is not writeable");
    return static_cast<T*>(PyArray_DATA(a()));
  }
  static bool check_(handle h) {
    if (!array::check_(h)) return false;
    auto* arr = reinterpret_cast<PyArrayObject*>(h.ptr());
    if (!PyArray_EquivTypenums(PyArray_TYPE(arr), detail::npy_type<T>())) {
      return false;
    }
    return !(Flags & (c_style | f_style)) ||
           (PyArray_FLAGS(arr) & (Flags & (c_style | f_style)));
  }
  static PyObject* ensure_raw(handle h) {
    detail::ensure_numpy();
    return PyArray_FromAny(
        h.ptr(), PyArray_DescrFromType(detail::npy_type<T>()), 0, 0,
        NPY_ARRAY_ENSUREARRAY | Flags | NPY_ARRAY_ALIGNED, nullptr);
  }
};

namespace detail {
template <typename T, int F>
struct type_caster<array_t<T, F>> {
  array_t<T, F> value{handle(), object::stolen_t{}};
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (!convert && !array_t<T, F>::check_(src)) return false;
    PyObject* p = array_t<T, F>::ensure_raw(src);
    if (!p) {
      PyErr_Clear();
      return false;
    }
    value = array_t<T, F>(handle(p), object::stolen_t{});
    return true;
  }
  static handle cast(const array_t<T, F>& v, return_value_policy, handle) {
    return handle(v.ptr()).inc_ref();
  }
};

// ---- Eigen
template <typename T>
struct is_eigen_plain {
  template <typename D>
  static std::true_type f(const Eigen::PlainObjectBase<D>*);
  static std::false_type f(...);
  static constexpr bool value =
      decltype(f(static_cast<T*>(nullptr)))::value;
};
template <typename T>
struct type_caster<T, std::enable_if_t<is_eigen_plain<T>::value>> {
  using Scalar = typename T::Scalar;
  static constexpr int R = T::RowsAtCompileTime, C = T::ColsAtCompileTime;
  static constexpr bool is_vec = T::IsVectorAtCompileTime;
  static constexpr bool row_major = T::IsRowMajor;
  T value;
  bool load(handle src, bool convert) {
    if (!src) return false;
    ensure_numpy();
    if (!convert) {
      if (!PyArray_Check(src.ptr()) ||
          !PyArray_EquivTypenums(
              PyArray_TYPE(reinterpret_cast<PyArrayObject*>(src.ptr())),
              npy_type<Scalar>())) {
        return false;
      }
    }
    object buf = reinterpret_steal<object>(
        PyArray_FromAny(src.ptr(), nullptr, 0, 0, NPY_ARRAY_ENSUREARRAY,
                        nullptr));
    if (!buf) {
      PyErr_Clear();
      return false;
    }
    auto* ba = reinterpret_cast<PyArrayObject*>(buf.ptr());
    const int nd = PyArray_NDIM(ba);
    if (nd < 1 || nd > 2) return false;
    npy_intp rows, cols;
    if (nd == 2) {
      rows = PyArray_DIM(ba, 0);
      cols = PyArray_DIM(ba, 1);
      if ((R != Eigen::Dynamic && R != rows) ||
          (C != Eigen::Dynamic && C != cols)) {
        return false;
      }
    } else {
      const npy_intp n = PyArray_DIM(ba, 0);
      if constexpr (is_vec) {
        if (T::SizeAtCompileTime != Eigen::Dynamic &&
            T::SizeAtCompileTime != n) {
          return false;
        }
        rows = R == 1 ? 1 : n;
        cols = R == 1 ? n : 1;
      } else if constexpr (R != Eigen::Dynamic && C != Eigen::Dynamic) {
        return false;
      } else if constexpr (C != Eigen::Dynamic) {
        if (C != n) return false;
        rows = 1;
        cols = n;
      } else {
        if (R != Eigen::Dynamic && R != n) return false;
        rows = n;
        cols = 1;
      }
    }
    value.resize(rows, cols);
    npy_intp dims[2] = {rows, cols};
    npy_intp st[2];
    st[0] = sizeof(Scalar) * (row_major ? cols : 1);
    st[1] = sizeof(Scalar) * (row_major ? 1 : rows);
    npy_intp d1 = rows * cols, s1 = sizeof(Scalar);
    Scalar dummy;
    void* data = value.size() ? (void*)value.data() : (void*)&dummy;
    object ref = reinterpret_steal<object>(
        nd == 1 ? PyArray_New(&PyArray_Type, 1, &d1, npy_type<Scalar>(), &s1,
                              data, 0, NPY_ARRAY_WRITEABLE, nullptr)
                : PyArray_New(&PyArray_Type, 2, dims, npy_type<Scalar>(), st,
                              data, 0, NPY_ARRAY_WRITEABLE, nullptr));
    if (!ref) throw error_already_set();
    if (PyArray_CopyInto(reinterpret_cast<PyArrayObject*>(ref.ptr()), ba) < 0) {
      PyErr_Clear();
      return false;
    }
    return true;
  }
  static PyObject* wrap(const T& src, void* data, int flags, bool own) {
    ensure_numpy();
    npy_intp dims[2] = {src.rows(), src.cols()};
    npy_intp st[2];
    st[0] = sizeof(Scalar) * (row_major ? src.cols() : 1);
    st[1] = sizeof(Scalar) * (row_major ? 1 : src.rows());
    int nd = 2;
    if (is_vec) {
      nd = 1;
      dims[0] = src.size();
      st[0] = sizeof(Scalar);
    }
    if (own) {
      PyObject* r = PyArray_New(&PyArray_Type, nd, dims, npy_type<Scalar>(),
                                nullptr, nullptr, 0,
                                (!is_vec && !row_major) ? 1 : 0, nullptr);
      if (!r) throw error_already_set();
      if (src.size()) {
        std::memcpy(PyArray_DATA(reinterpret_cast<PyArrayObject*>(r)),
                    src.data(), sizeof(Scalar) * src.size());
      }
      return r;
    }
    PyObject* r = PyArray_New(&PyArray_Type, nd, dims, npy_type<Scalar>(), st,
                              data, 0, flags, nullptr);
    if (!r) throw error_already_set();
    return r;
  }
  static handle own_copy(const T& src) {
    return wrap(src, nullptr, 0, true);
  }
  static handle ref(const T& src, handle parent, bool writeable) {
    PyObject* r = wrap(src, const_cast<Scalar*>(src.data()),
                       writeable ? NPY_ARRAY_WRITEABLE : 0, false);
    handle base = parent ? parent : handle(Py_None);
    base.inc_ref();
    PyArray_SetBaseObject(reinterpret_cast<PyArrayObject*>(r), base.ptr());
    return r;
  }
  static handle dispatch(const T& src, return_value_policy policy,
                         handle parent, bool writeable) {
    switch (policy) {
      case return_value_policy::reference:
      case return_value_policy::automatic_reference:
        return ref(src, handle(), writeable);
      case return_value_policy::reference_internal:
        return ref(src, parent, writeable);
      default:
        return own_copy(src);
    }
  }
  static handle cast(T&& src, return_value_policy, handle) {
    return own_copy(src);
  }
  static handle cast(const T&& src, return_value_policy, handle) {
    return own_copy(src);
  }
  static handle cast(T& src, return_value_policy policy, handle parent) {
    if (policy == return_value_policy::automatic ||
        policy == return_value_policy::automatic_reference) {
      policy = return_value_policy::copy;
    }
    return dispatch(src, policy, parent, true);
  }
  static handle cast(const T& src, return_value_policy policy, handle parent) {
    if (policy == return_value_policy::automatic ||
        policy == return_value_policy::automatic_reference) {
      policy = return_value_policy::copy;
    }
    return dispatch(src, policy, parent, false);
  }
  static handle cast(const T* src, return_value_policy policy, handle parent) {
    if (!src) return none().release();
    return dispatch(*src, policy, parent, false);
  }
};
}  // namespace detail

// ------------------------------------------------------------------ functions
namespace detail {

inline PyObject* const TRY_NEXT = reinterpret_cast<PyObject*>(1);

struct argument_record {
  std::string name;
  object value;
};

struct function_call {
  std::vector<handle> args;
  bool convert = true;
  handle parent;
};

struct function_record {
  std::string name;
  std::function<PyObject*(function_call&)> impl;
  return_value_policy policy = return_value_policy::automatic;
  std::vector<argument_record> args;
  size_t nargs = 0;
  bool is_method = false;
  std::vector<std::pair<size_t, size_t>> keeps;
  std::unique_ptr<function_record> next;
  PyMethodDef* def = nullptr;
};

inline const char* kRecordCapsule = "vpb_function_record";

inline void set_python_error() {
  try {
    throw;
  } catch (error_already_set& e) {
    e.restore();
  } catch (const stop_iteration& e) {
    e.set_error();
  } catch (const index_error& e) {
    e.set_error();
  } catch (const key_error& e) {
    e.set_error();
  } catch (const value_error& e) {
    e.set_error();
  } catch (const type_error& e) {
    e.set_error();
  } catch (const std::bad_alloc& e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error& e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
}

inline PyObject* try_overload(function_record* r, PyObject* args_in,
                              PyObject* kwargs_in, bool convert) {
  const size_t n_in = PyTuple_GET_SIZE(args_in);
  if (n_in > r->nargs) return TRY_NEXT;
  if (n_in < r->nargs && r->args.size() < r->nargs) return TRY_NEXT;
  function_call call;
  call.convert = convert;
  call.args.reserve(r->nargs);
  size_t used_kw = 0;
  for (size_t i = 0; i < n_in; ++i) {
    if (kwargs_in && i < r->args.size() && !r->args[i].name.empty() &&
        PyDict_GetItemString(kwargs_in, r->args[i].name.c_str())) {
      return TRY_NEXT;
    }
    call.args.push_back(PyTuple_GET_ITEM(args_in, i));
  }
  for (size_t i = n_in; i < r->nargs; ++i) {
    PyObject* v = nullptr;
    if (kwargs_in && !r->args[i].name.empty()) {
      v = PyDict_GetItemString(kwargs_in, r->args[i].name.c_str());
    }
    if (v) {
      ++used_kw;
    } else {
      v = r->args[i].value.ptr();
    }
    if (!v) return TRY_NEXT;
    call.args.push_back(v);
  }
  if (kwargs_in && used_kw != (size_t)PyDict_Size(kwargs_in)) return TRY_NEXT;
  call.parent = call.args.empty() ? handle() : call.args[0];
  PyObject* result = nullptr;
  try {
    result = r->impl(call);
  } catch (reference_cast_error&) {
    return TRY_NEXT;
  }
  if (result && result != TRY_NEXT) {
    for (const auto& k : r->keeps) {
      auto get = [&](size_t n) -> handle {
        if (n == 0) return handle(result);
        return n <= call.args.size() ? call.args[n - 1] : handle();
      };
      keep_alive_impl(get(k.first), get(k.second));
    }
  }
  return result;
}

extern "C" inline PyObject* vpb_dispatch(PyObject* self, PyObject* args_in,
                                         PyObject* kwargs_in) {
  auto* first = static_cast<function_record*>(
      PyCapsule_GetPointer(self, kRecordCapsule));
  if (!first) return nullptr;
  try {
    const bool overloaded = first->next != nullptr;
    PyObject* r = TRY_NEXT;
    if (overloaded) {
      for (auto* f = first; f && r == TRY_NEXT; f = f->next.get()) {
        r = try_overload(f, args_in, kwargs_in, false);
      }
    }
    for (auto* f = first; f && r == TRY_NEXT; f = f->next.get()) {
      r = try_overload(f, args_in, kwargs_in, true);
    }
    if (r == TRY_NEXT) {
      object rep = reinterpret_steal<object>(PyObject_Repr(args_in));
      PyErr_Clear();
      PyErr_Format(PyExc_TypeError,
                   "%s(): incompatible function arguments. Invoked with: %.400S",
                   first->name.c_str(), rep ? rep.ptr() : Py_None);
      return nullptr;
    }
    if (!r && !PyErr_Occurred()) {
      PyErr_Format(PyExc_TypeError, "%s(): unable to convert the return value",
                   first->name.c_str());
    }
    return r;
  } catch (...) {
    set_python_error();
    return nullptr;
  }
}

template <typename T>
struct guard_of;
template <typename... Gs>
struct guards_holder {
  std::tuple<Gs...> g;
};
template <>
struct guard_of<call_guard<>> {
  struct type {};
};
template <typename G>
struct guard_of<call_guard<G>> {
  using type = G;
};

struct no_guard {
  no_guard() {}
};
template <typename... Extra>
struct find_guard {
  using type = no_guard;
};
template <typename G, typename... Rest>
struct find_guard<call_guard<G>, Rest...> {
  using type = G;
};
template <typename E, typename... Rest>
struct find_guard<E, Rest...> : find_guard<Rest...> {};

inline void process(function_record* r, return_value_policy p) {
  r->policy = p;
}
inline void add_self_arg(function_record* r) {
  if (r->is_method && r->args.empty()) r->args.push_back({"self", object()});
}
inline void process(function_record* r, const arg& a) {
  add_self_arg(r);
  r->args.push_back({a.name, object()});
}
inline void process(function_record* r, const arg_v& a) {
  add_self_arg(r);
  r->args.push_back({a.name, a.value});
}
template <size_t N, size_t P>
void process(function_record* r, keep_alive<N, P>) {
  r->keeps.emplace_back(N, P);
}
template <typename... G>
void process(function_record*, call_guard<G...>) {}
inline void process(function_record*, module_local) {}
inline void process(function_record*, const char*) {}
inline void process(function_record*, const doc&) {}

template <typename Guard, typename Ret, typename F, typename... Args>
std::function<PyObject*(function_call&)> make_impl(F f, function_record* rec) {
  return [f, rec](function_call& call) -> PyObject* {
    std::tuple<make_caster<Args>...> casters;
    bool ok = true;
    size_t i = 0;
    std::apply(
        [&](auto&... c) {
          ((ok = ok && c.load(call.args[i++], call.convert)), ...);
        },
        casters);
    if (!ok) return TRY_NEXT;
    auto invoke = [&]() -> Ret {
      Guard g;
      (void)g;
      return std::apply(
          [&](auto&... c) -> Ret { return f(cast_op<Args>(c)...); }, casters);
    };
    if constexpr (std::is_void_v<Ret>) {
      invoke();
      Py_RETURN_NONE;
    } else {
      return_value_policy p = policy_override<Ret>(rec->policy);
      return make_caster<Ret>::cast(invoke(), p, call.parent).ptr();
    }
  };
}

// a python function from a record; joins the overload chain of `sibling`
inline object make_function(std::unique_ptr<function_record> rec,
                            handle sibling, handle module_name) {
  if (sibling) {
    PyObject* s = sibling.ptr();
    if (PyInstanceMethod_Check(s)) s = PyInstanceMethod_GET_FUNCTION(s);
    if (Py_IS_TYPE(s, &PyStaticMethod_Type)) {
      object f = sibling.attr("__func__");
      s = f.ptr();
    }
    if (PyCFunction_Check(s)) {
      PyObject* cap = PyCFunction_GET_SELF(s);
      if (cap && PyCapsule_IsValid(cap, kRecordCapsule)) {
        auto* head = static_cast<function_record*>(
            PyCapsule_GetPointer(cap, kRecordCapsule));
        auto* tail = head;
        while (tail->next) tail = tail->next.get();
        tail->next = std::move(rec);
        return reinterpret_borrow<object>(s);
      }
    }
  }
  function_record* r = rec.release();
  r->def = new PyMethodDef();
  r->def->ml_name = r->name.c_str();
  r->def->ml_meth = reinterpret_cast<PyCFunction>(
      reinterpret_cast<void (*)()>(vpb_dispatch));
  r->def->ml_flags = METH_VARARGS | METH_KEYWORDS;
  object cap = reinterpret_steal<object>(
      PyCapsule_New(r, kRecordCapsule, nullptr));
  return reinterpret_steal<object>(
      PyCFunction_NewEx(r->def, cap.ptr(), module_name.ptr()));
}

template <typename F>
struct signature : signature<decltype(&F::operator())> {};
template <typename R, typename... A>
struct signature<R (*)(A...)> {
  template <typename Guard, typename F>
  static auto impl(F f, function_record* r) {
    return make_impl<Guard, R, F, A...>(f, r);
  }
  static constexpr size_t n = sizeof...(A);
};
template <typename C, typename R, typename... A>
struct signature<R (C::*)(A...)> : signature<R (*)(A...)> {};
template <typename C, typename R, typename... A>
struct signature<R (C::*)(A...) const> : signature<R (*)(A...)> {};

// member functions as functions of the class the binding is for
template <typename Cls, typename F>
auto adapt(F f) {
  return f;
}
template <typename Cls, typename R, typename C, typename... A>
auto adapt(R (C::*f)(A...)) {
  return [f](Cls* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); };
}
template <typename Cls, typename R, typename C, typename... A>
auto adapt(R (C::*f)(A...) const) {
  return
      [f](const Cls* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); };
}
template <typename Cls, typename R, typename C, typename... A>
auto adapt(R (C::*f)(A...) noexcept) {
  return [f](Cls* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); };
}
template <typename Cls, typename R, typename C, typename... A>
auto adapt(R (C::*f)(A...) const noexcept) {
  return
      [f](const Cls* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); };
}

template <typename F, typename... Extra>
std::unique_ptr<function_record> make_record(const char* name, F f,
                                             bool is_method,
                                             return_value_policy policy,
                                             const Extra&... extra) {
  auto r = std::make_unique<function_record>();
  r->name = name;
  r->is_method = is_method;
  r->policy = policy;
  (process(r.get(), extra), ...);
  using S = signature<F>;
  r->nargs = S::n;
  using G = typename find_guard<Extra...>::type;
  r->impl = S::template impl<G>(f, r.get());
  return r;
}

template <typename... Args>
struct overload_cast_impl {
  template <typename R>
  constexpr auto operator()(R (*pf)(Args...)) const -> decltype(pf) {
    return pf;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*pm)(Args...), std::false_type = {}) const
      -> decltype(pm) {
    return pm;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*pm)(Args...) const, std::true_type) const
      -> decltype(pm) {
    return pm;
  }
};
}  // namespace detail

template <typename... Args>
inline constexpr detail::overload_cast_impl<Args...> overload_cast{};
inline constexpr auto const_ = std::true_type{};

// ------------------------------------------------------------------ modules
class module_ : public object {
 public:
  using object::object;
  module_() = default;
  static module_ import(const char* name) {
    PyObject* m = PyImport_ImportModule(name);
    if (!m) throw error_already_set();
    return reinterpret_steal<module_>(m);
  }
  template <typename F, typename... Extra>
  module_& def(const char* name, F&& f, const Extra&... extra) {
    object mod_name = attr("__name__");
    object sib;
    if (PyObject_HasAttrString(m_ptr, name)) sib = attr(name);
    object fn = detail::make_function(
        detail::make_record(name, std::decay_t<F>(f), false,
                            return_value_policy::automatic, extra...),
        sib, mod_name);
    if (PyObject_SetAttrString(m_ptr, name, fn.ptr()) != 0) {
      throw error_already_set();
    }
    return *this;
  }
};
using module = module_;

// ------------------------------------------------------------------ classes
namespace detail {
template <typename... Args>
struct init_t {};
template <typename Get, typename Set>
struct pickle_t {
  Get get;
  Set set;
};
}  // namespace detail
template <typename... Args>
detail::init_t<Args...> init() {
  return {};
}
template <typename Get, typename Set>
detail::pickle_t<Get, Set> pickle(Get g, Set s) {
  return {g, s};
}

template <typename T, typename... Options>
class class_ : public object {
 public:
  using type = T;
  template <typename... Extra>
  class_(handle scope, const char* name, const Extra&...) {
    auto* info = new detail::type_info();
    std::string mod;
    if (scope) {
      if (PyObject_HasAttrString(scope.ptr(), name)) {
        throw std::runtime_error(std::string("generic_type: \"") + name +
                                 "\" is already defined!");
      }
      object m = PyModule_Check(scope.ptr()) ? scope.attr("__name__")
                                             : scope.attr("__module__");
      mod = m.cast<std::string>();
    }
    if (detail::get_type_info(typeid(T), false)) {
      throw std::runtime_error(std::string("generic_type: type \"") + name +
                               "\" is already registered!");
    }
    auto* full = new std::string((mod.empty() ? std::string("vpb_local") : mod) + "." + name);
    static PyMemberDef members[] = {
        {"__weaklistoffset__", T_PYSSIZET,
         offsetof(detail::instance, weakrefs), READONLY, nullptr},
        {nullptr, 0, 0, 0, nullptr}};
    PyType_Slot slots[] = {
        {Py_tp_new, reinterpret_cast<void*>(detail::vpb_new)},
        {Py_tp_init, reinterpret_cast<void*>(detail::vpb_init)},
        {Py_tp_dealloc, reinterpret_cast<void*>(detail::vpb_dealloc)},
        {Py_tp_members, members},
        {0, nullptr}};
    PyType_Spec spec = {full->c_str(), sizeof(detail::instance), 0,
                        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    m_ptr = PyType_FromSpec(&spec);
    if (!m_ptr) throw error_already_set();
    info->type = reinterpret_cast<PyTypeObject*>(m_ptr);
    info->cpp_name = *full;
    if constexpr (std::is_destructible_v<T>) {
      info->dealloc = [](void* p) { delete static_cast<T*>(p); };
    }
    Py_INCREF(m_ptr);
    detail::get_internals().types[typeid(T).name()] = info;
    detail::get_internals().by_type[info->type] = info;
    if (scope && PyObject_SetAttrString(scope.ptr(), name, m_ptr) != 0) {
      throw error_already_set();
    }
  }

  template <typename F, typename... Extra>
  class_& def(const char* name, F&& f, const Extra&... extra) {
    add_method(name,
               detail::make_record(name, detail::adapt<T>(std::decay_t<F>(f)),
                                   true, return_value_policy::automatic,
                                   extra...));
    return *this;
  }
  template <typename... Args, typename... Extra>
  class_& def(const detail::init_t<Args...>&, const Extra&... extra) {
    auto f = [](handle self, Args... args) {
      auto* i = reinterpret_cast<detail::instance*>(self.ptr());
      T* p;
      if constexpr (std::is_constructible_v<T, Args...>) {
        p = new T(std::forward<Args>(args)...);
      } else {
        p = new T{std::forward<Args>(args)...};
      }
      set_value(i, p);
    };
    add_method("__init__",
               detail::make_record("__init__", f, true,
                                   return_value_policy::automatic, extra...));
    return *this;
  }
  template <typename Get, typename Set, typename... Extra>
  class_& def(const detail::pickle_t<Get, Set>& p, const Extra&...) {
    def("__getstate__", p.get);
    auto set = p.set;
    auto f = [set](handle self, tuple state) {
      auto* i = reinterpret_cast<detail::instance*>(self.ptr());
      set_value(i, new T(set(state)));
    };
    add_method("__setstate__",
               detail::make_record("__setstate__", f, true,
                                   return_value_policy::automatic));
    return *this;
  }
  template <typename F, typename... Extra>
  class_& def_static(const char* name, F&& f, const Extra&... extra) {
    object sib = own_attr(name);
    object fn = detail::make_function(
        detail::make_record(name, std::decay_t<F>(f), false,
                            return_value_policy::automatic, extra...),
        sib, attr("__module__"));
    object sm = reinterpret_steal<object>(PyStaticMethod_New(fn.ptr()));
    set_attr(name, sm);
    return *this;
  }
  template <typename C, typename D, typename... Extra>
  class_& def_readwrite(const char* name, D C::* pm, const Extra&... extra) {
    auto get = [pm](const T& c) -> const D& { return c.*pm; };
    auto set = [pm](T& c, const D& v) { c.*pm = v; };
    return property(name,
                    detail::make_record(name, get, true,
                                        return_value_policy::reference_internal,
                                        extra...),
                    detail::make_record(name, set, true,
                                        return_value_policy::automatic));
  }
  template <typename C, typename D, typename... Extra>
  class_& def_readonly(const char* name, const D C::* pm,
                       const Extra&... extra) {
    auto get = [pm](const T& c) -> const D& { return c.*pm; };
    return property(name,
                    detail::make_record(name, get, true,
                                        return_value_policy::reference_internal,
                                        extra...),
                    nullptr);
  }
  template <typename D>
  class_& def_readonly_static(const char* name, const D* pm) {
    object v = pybind11::cast(static_cast<const D&>(*pm));
    set_attr(name, v);
    return *this;
  }
  template <typename G, typename S, typename... Extra>
  class_& def_property(const char* name, const G& g, const S& s,
                       const Extra&... extra) {
    return property(
        name,
        detail::make_record(name, detail::adapt<T>(g), true,
                            return_value_policy::reference_internal, extra...),
        detail::make_record(name, detail::adapt<T>(s), true,
                            return_value_policy::automatic));
  }
  template <typename G, typename... Extra>
  class_& def_property_readonly(const char* name, const G& g,
                                const Extra&... extra) {
    return property(
        name,
        detail::make_record(name, detail::adapt<T>(g), true,
                            return_value_policy::reference_internal, extra...),
        nullptr);
  }

 protected:
  static void set_value(detail::instance* i, T* p) {
    if (i->value) {
      detail::deregister_instance(i);
      if (i->owned && i->info->dealloc) i->info->dealloc(i->value);
    }
    i->value = p;
    i->owned = true;
    detail::register_instance(i);
  }
  object own_attr(const char* name) {
    object d = attr("__dict__");
    PyObject* r = PyMapping_GetItemString(d.ptr(), name);
    if (!r) {
      PyErr_Clear();
      return object();
    }
    return reinterpret_steal<object>(r);
  }
  void set_attr(const char* name, const object& v) {
    if (PyObject_SetAttrString(m_ptr, name, v.ptr()) != 0) {
      throw error_already_set();
    }
  }
  void add_method(const char* name,
                  std::unique_ptr<detail::function_record> rec) {
    object sib = own_attr(name);
    object fn =
        detail::make_function(std::move(rec), sib, attr("__module__"));
    object im = reinterpret_steal<object>(PyInstanceMethod_New(fn.ptr()));
    set_attr(name, im);
  }
  class_& property(const char* name,
                   std::unique_ptr<detail::function_record> get,
                   std::unique_ptr<detail::function_record> set) {
    object mod = attr("__module__");
    object g = detail::make_function(std::move(get), handle(), mod);
    object s = set ? detail::make_function(std::move(set), handle(), mod)
                   : object(none());
    object p = reinterpret_steal<object>(PyObject_CallFunctionObjArgs(
        reinterpret_cast<PyObject*>(&PyProperty_Type), g.ptr(), s.ptr(),
        Py_None, nullptr));
    if (!p) throw error_already_set();
    set_attr(name, p);
    return *this;
  }
};

template <typename T>
class enum_ : public class_<T> {
 public:
  using U = std::underlying_type_t<T>;
  template <typename... Extra>
  enum_(const handle& scope, const char* name, const Extra&... extra)
      : class_<T>(scope, name, extra...), scope_(scope), name_(name) {
    members_ = dict();
    this->set_attr("__members__", members_);
    auto* names = new std::map<long long, std::string>();
    names_ = names;
    const std::string tname = name;
    auto name_of = [names](const T& v) -> std::string {
      auto it = names->find((long long)(U)v);
      return it == names->end() ? "???" : it->second;
    };
    auto init = [](handle self, long long v) {
      class_<T>::set_value(
          reinterpret_cast<detail::instance*>(self.ptr()),
          new T(static_cast<T>(v)));
    };
    this->add_method("__init__",
                     detail::make_record("__init__", init, true,
                                         return_value_policy::automatic,
                                         arg("value")));
    this->add_method("__setstate__",
                     detail::make_record("__setstate__", init, true,
                                         return_value_policy::automatic));
    auto toint = [](const T& v) { return (long long)(U)v; };
    this->def("__int__", toint);
    this->def("__index__", toint);
    this->def("__hash__", toint);
    this->def("__getstate__", toint);
    this->def("__repr__", [tname, name_of, toint](const T& v) {
      return "<" + tname + "." + name_of(v) + ": " + std::to_string(toint(v)) +
             ">";
    });
    this->def("__str__", [tname, name_of](const T& v) {
      return tname + "." + name_of(v);
    });
    this->def_property_readonly("name", name_of);
    this->def_property_readonly("value", toint);
    auto eq = [](const T& a, handle o) {
      detail::make_caster<T> c;
      if (!o.is_none() && c.load(o, false)) {
        return a == *static_cast<T*>(c.ptr);
      }
      if (std::is_convertible_v<T, U> && PyLong_Check(o.ptr())) {
        return (long long)(U)a == PyLong_AsLongLong(o.ptr());
      }
      return false;
    };
    this->def("__eq__", eq);
    this->def("__ne__", [eq](const T& a, handle o) { return !eq(a, o); });
  }
  enum_& value(const char* name, T v) {
    object o = pybind11::cast(v);
    this->set_attr(name, o);
    PyDict_SetItemString(members_.ptr(), name, o.ptr());
    names_->emplace((long long)(U)v, name);
    return *this;
  }
  enum_& export_values() {
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(members_.ptr(), &pos, &k, &v)) {
      PyObject_SetAttr(scope_.ptr(), k, v);
    }
    return *this;
  }

 private:
  handle scope_;
  const char* name_;
  dict members_;
  std::map<long long, std::string>* names_;
};

// ------------------------------------------------------------------ iterators
namespace detail {
template <typename It, typename End, int Kind, return_value_policy P>
struct iterator_state {
  It it;
  End end;
  bool first_or_done;
};
template <int Kind, return_value_policy P, typename Value, typename It,
          typename End, typename Deref>
iterator make_iterator_impl(It first, End last, Deref deref) {
  using state = iterator_state<It, End, Kind, P>;
  if (!get_type_info(typeid(state), false)) {
    class_<state>(handle(), "iterator", module_local())
        .def("__iter__", [](state& s) -> state& { return s; })
        .def(
            "__next__",
            [deref](state& s) -> Value {
              if (!s.first_or_done) {
                ++s.it;
              } else {
                s.first_or_done = false;
              }
              if (s.it == s.end) {
                s.first_or_done = true;
                throw stop_iteration();
              }
              return deref(s.it);
            },
            P);
  }
  return cast(state{first, last, true});
}
}  // namespace detail
template <return_value_policy P = return_value_policy::reference_internal,
          typename It, typename End>
iterator make_iterator(It first, End last) {
  using V = decltype(*std::declval<It&>());
  return detail::make_iterator_impl<0, P, V>(
      first, last, [](It& it) -> V { return *it; });
}
template <return_value_policy P = return_value_policy::reference_internal,
          typename It, typename End>
iterator make_key_iterator(It first, End last) {
  using K = decltype(((*std::declval<It&>()).first));
  return detail::make_iterator_impl<1, P, K>(
      first, last, [](It& it) -> K { return (*it).first; });
}

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                     \
  static void vpb_module_init_##name(pybind11::module_&);                   \
  extern "C" __attribute__((visibility("default"))) PyObject*               \
      PyInit_##name() {                                                     \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1,    \
                              nullptr,               nullptr, nullptr,      \
                              nullptr,               nullptr};              \
    PyObject* m = PyModule_Create(&def);                                    \
    if (!m) return nullptr;                                                 \
    try {                                                                   \
      auto mod = pybind11::reinterpret_borrow<pybind11::module_>(m);        \
      vpb_module_init_##name(mod);                                          \
      return m;                                                             \
    } catch (...) {                                                         \
      pybind11::detail::set_python_error();                                 \
      Py_DECREF(m);                                                         \
      return nullptr;                                                       \
    }                                                                       \
  }                                                                         \
  void vpb_module_init_##name(pybind11::module_& variable)
