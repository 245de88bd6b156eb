//! Stand-in for the parts of pyo3 the qirrunner crate uses (and their close neighbours), over the real CPython C API.
#![allow(clippy::missing_safety_doc, non_upper_case_globals)]
use std::ffi::{CStr, CString, OsString, c_char, c_int, c_long, c_uint, c_ulong, c_void};
use std::fmt;
use std::marker::PhantomData;
use std::path::PathBuf;
use std::sync::OnceLock;

#[repr(C)]
pub struct RawObject {
    refs: isize,
    ty: *mut RawObject,
}
pub type Obj = *mut RawObject;

#[repr(C)]
struct MethodDef {
    name: *const c_char,
    f: Option<unsafe extern "C" fn(Obj, Obj, Obj) -> Obj>,
    flags: c_int,
    doc: *const c_char,
}

#[repr(C)]
struct ModuleDef {
    base: RawObject,
    init: *const c_void,
    index: isize,
    copy: Obj,
    name: *const c_char,
    doc: *const c_char,
    size: isize,
    methods: *const c_void,
    slots: *const c_void,
    traverse: *const c_void,
    clear: *const c_void,
    free: *const c_void,
}

#[repr(C)]
struct Slot {
    slot: c_int,
    p: *const c_void,
}

#[repr(C)]
struct Spec {
    name: *const c_char,
    basicsize: c_int,
    itemsize: c_int,
    flags: c_uint,
    slots: *const Slot,
}

unsafe extern "C" {
    fn Py_IncRef(o: Obj);
    fn Py_DecRef(o: Obj);
    fn PyGILState_Check() -> c_int;
    fn PyGILState_Ensure() -> c_int;
    fn PyGILState_Release(s: c_int);
    fn PyEval_SaveThread() -> *mut c_void;
    fn PyEval_RestoreThread(s: *mut c_void);
    fn PyErr_Occurred() -> Obj;
    fn PyErr_SetObject(t: Obj, v: Obj);
    fn PyErr_Restore(t: Obj, v: Obj, tb: Obj);
    fn PyErr_Fetch(t: *mut Obj, v: *mut Obj, tb: *mut Obj);
    fn PyErr_NormalizeException(t: *mut Obj, v: *mut Obj, tb: *mut Obj);
    fn PyErr_NewException(name: *const c_char, base: Obj, dict: Obj) -> Obj;
    fn PyErr_GivenExceptionMatches(e: Obj, t: Obj) -> c_int;
    fn PyErr_WriteUnraisable(o: Obj);
    fn PyObject_Str(o: Obj) -> Obj;
    fn PyObject_Call(f: Obj, a: Obj, k: Obj) -> Obj;
    fn PyObject_GetAttrString(o: Obj, n: *const c_char) -> Obj;
    fn PyObject_IsTrue(o: Obj) -> c_int;
    fn PyUnicode_FromStringAndSize(s: *const c_char, n: isize) -> Obj;
    fn PyUnicode_AsUTF8AndSize(o: Obj, n: *mut isize) -> *const c_char;
    fn PyUnicode_EncodeFSDefault(o: Obj) -> Obj;
    fn PyBytes_FromStringAndSize(s: *const c_char, n: isize) -> Obj;
    fn PyBytes_AsStringAndSize(o: Obj, s: *mut *mut c_char, n: *mut isize) -> c_int;
    fn PyTuple_New(n: isize) -> Obj;
    fn PyTuple_SetItem(t: Obj, i: isize, o: Obj) -> c_int;
    fn PyTuple_Size(t: Obj) -> isize;
    fn PyTuple_GetItem(t: Obj, i: isize) -> Obj;
    fn PyList_New(n: isize) -> Obj;
    fn PyList_SetItem(t: Obj, i: isize, o: Obj) -> c_int;
    fn PyDict_Next(d: Obj, pos: *mut isize, k: *mut Obj, v: *mut Obj) -> c_int;
    fn PySequence_Check(o: Obj) -> c_int;
    fn PySequence_Size(o: Obj) -> isize;
    fn PySequence_GetItem(o: Obj, i: isize) -> Obj;
    fn PyNumber_Index(o: Obj) -> Obj;
    fn PyLong_AsLongLong(o: Obj) -> i64;
    fn PyLong_AsUnsignedLongLong(o: Obj) -> u64;
    fn PyLong_FromLongLong(v: i64) -> Obj;
    fn PyLong_FromUnsignedLongLong(v: u64) -> Obj;
    fn PyBool_FromLong(v: c_long) -> Obj;
    fn PyFloat_FromDouble(v: f64) -> Obj;
    fn PyFloat_AsDouble(o: Obj) -> f64;
    fn PyCallable_Check(o: Obj) -> c_int;
    fn PyType_GetFlags(t: Obj) -> c_ulong;
    fn PyType_FromSpec(s: *const Spec) -> Obj;
    fn PyType_GetSlot(t: Obj, s: c_int) -> *mut c_void;
    fn PyType_IsSubtype(a: Obj, b: Obj) -> c_int;
    fn PyCMethod_New(d: *const MethodDef, s: Obj, m: Obj, c: Obj) -> Obj;
    fn PyModule_Create2(d: *const ModuleDef, v: c_int) -> Obj;
    fn PyModule_AddObjectRef(m: Obj, n: *const c_char, o: Obj) -> c_int;
    static PyExc_BaseException: Obj;
    static PyExc_Exception: Obj;
    static PyExc_RuntimeError: Obj;
    static PyExc_TypeError: Obj;
    static PyExc_ValueError: Obj;
    static PyExc_OverflowError: Obj;
    static PyExc_OSError: Obj;
    static PyExc_KeyError: Obj;
    static PyExc_IndexError: Obj;
    static PyExc_SystemError: Obj;
    static PyExc_BrokenPipeError: Obj;
    static PyExc_FileNotFoundError: Obj;
    static PyExc_PermissionError: Obj;
    static PyExc_InterruptedError: Obj;
    static PyExc_TimeoutError: Obj;
    static mut _Py_NoneStruct: RawObject;
}


const BYTES: c_ulong = 1 << 27;
const UNICODE: c_ulong = 1 << 28;

fn none() -> Obj {
    &raw mut _Py_NoneStruct
}

unsafe fn is(o: Obj, f: c_ulong) -> bool {
    unsafe { PyType_GetFlags((*o).ty) & f != 0 }
}

unsafe fn type_name(o: Obj) -> String {
    unsafe { attr_text((*o).ty, c"__name__") }
}

unsafe fn attr_text(o: Obj, n: &CStr) -> String {
    unsafe {
        let a = PyObject_GetAttrString(o, n.as_ptr());
        if a.is_null() {
            let _ = PyErr::fetch();
            return "?".into();
        }
        let s = text(a);
        Py_DecRef(a);
        s
    }
}

unsafe fn text(o: Obj) -> String {
    unsafe {
        let s = PyObject_Str(o);
        if s.is_null() {
            let _ = PyErr::fetch();
            return "<unprintable>".into();
        }
        let mut n = 0;
        let p = PyUnicode_AsUTF8AndSize(s, &mut n);
        let r = if p.is_null() {
            let _ = PyErr::fetch();
            "<unprintable>".into()
        } else {
            String::from_utf8_lossy(std::slice::from_raw_parts(p.cast(), n as usize)).into_owned()
        };
        Py_DecRef(s);
        r
    }
}

// ---------------------------------------------------------------- the interpreter

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<(&'py (), *mut ())>);

impl<'py> Python<'py> {
    unsafe fn assume() -> Self {
        Python(PhantomData)
    }
    pub fn attach<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R {
        struct G(c_int);
        impl Drop for G {
            fn drop(&mut self) {
                unsafe { PyGILState_Release(self.0) }
            }
        }
        unsafe {
            let _g = G(PyGILState_Ensure());
            f(Python::assume())
        }
    }
    pub fn with_gil<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R {
        Self::attach(f)
    }
    pub fn detach<R>(self, f: impl FnOnce() -> R) -> R {
        struct G(*mut c_void);
        impl Drop for G {
            fn drop(&mut self) {
                unsafe { PyEval_RestoreThread(self.0) }
            }
        }
        unsafe {
            let _g = G(PyEval_SaveThread());
            f()
        }
    }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R {
        self.detach(f)
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> Py<PyAny> {
        unsafe {
            Py_IncRef(none());
            Py::raw(none())
        }
    }
}

pub struct PyAny;
pub struct PyTuple;
pub struct PyModule;
pub struct PyCFunction;
pub struct PyString;

pub struct Py<T>(Obj, PhantomData<T>);
unsafe impl<T> Send for Py<T> {}
unsafe impl<T> Sync for Py<T> {}
pub type PyObject = Py<PyAny>;

impl<T> Py<T> {
    unsafe fn raw(o: Obj) -> Self {
        Py(o, PhantomData)
    }
    pub fn clone_ref(&self, _py: Python<'_>) -> Py<T> {
        unsafe {
            Py_IncRef(self.0);
            Py::raw(self.0)
        }
    }
    pub fn bind<'py>(&self, py: Python<'py>) -> &Bound<'py, T> {
        let _ = py;
        // both are one pointer
        unsafe { &*(&raw const *self).cast::<Bound<'py, T>>() }
    }
    pub fn into_bound<'py>(self, _py: Python<'py>) -> Bound<'py, T> {
        Bound(self, PhantomData)
    }
    pub fn into_any(self) -> Py<PyAny> {
        let p = Py(self.0, PhantomData);
        std::mem::forget(self);
        p
    }
    pub fn is_none(&self, _py: Python<'_>) -> bool {
        self.0 == none()
    }
    pub fn call1(&self, py: Python<'_>, args: impl IntoTuple) -> PyResult<Py<PyAny>> {
        let a = args.into_tuple(py)?;
        unsafe {
            let r = PyObject_Call(self.0, a.0.0, std::ptr::null_mut());
            if r.is_null() { Err(PyErr::fetch()) } else { Ok(Py::raw(r)) }
        }
    }
    pub fn call0(&self, py: Python<'_>) -> PyResult<Py<PyAny>> {
        self.call1(py, ())
    }
}

impl<T> Drop for Py<T> {
    fn drop(&mut self) {
        unsafe {
            // without the interpreter lock the reference is leaked
            if PyGILState_Check() == 1 {
                Py_DecRef(self.0);
            }
        }
    }
}

#[repr(transparent)]
pub struct Bound<'py, T>(Py<T>, PhantomData<Python<'py>>);

impl<'py, T> Bound<'py, T> {
    pub fn py(&self) -> Python<'py> {
        unsafe { Python::assume() }
    }
    pub fn unbind(self) -> Py<T> {
        self.0
    }
    pub fn into_any(self) -> Bound<'py, PyAny> {
        Bound(self.0.into_any(), PhantomData)
    }
    pub fn call1(&self, args: impl IntoTuple) -> PyResult<Bound<'py, PyAny>> {
        Ok(self.0.call1(self.py(), args)?.into_bound(self.py()))
    }
    pub fn into_raw(self) -> Obj {
        let o = self.0.0;
        std::mem::forget(self);
        o
    }
    pub fn is_none(&self) -> bool {
        self.0.0 == none()
    }
    pub fn is_callable(&self) -> bool {
        unsafe { PyCallable_Check(self.0.0) == 1 }
    }
}

impl<T> Clone for Bound<'_, T> {
    fn clone(&self) -> Self {
        Bound(self.0.clone_ref(self.py()), PhantomData)
    }
}

impl<'py> Bound<'py, PyModule> {
    pub fn add(&self, name: &str, v: impl ToObj) -> PyResult<()> {
        let n = CString::new(name).unwrap();
        unsafe {
            let o = v.to_obj(self.py())?;
            let r = PyModule_AddObjectRef(self.0.0, n.as_ptr(), o);
            Py_DecRef(o);
            if r != 0 { Err(PyErr::fetch()) } else { Ok(()) }
        }
    }
    pub fn add_function(&self, f: Bound<'_, PyCFunction>) -> PyResult<()> {
        let n = unsafe { attr_text(f.0.0, c"__name__") };
        self.add(&n, f.into_any().unbind())
    }
    pub fn add_class<T: PyClass + impl_::Methods>(&self) -> PyResult<()> {
        unsafe {
            let t = impl_::type_object::<T>()?;
            Py_IncRef(t);
            self.add(T::NAME, Py::<PyAny>::raw(t))
        }
    }
}

impl PyTuple {
    pub fn new<'py, U: ToObj>(py: Python<'py>, v: impl IntoIterator<Item = U>) -> PyResult<Bound<'py, PyTuple>> {
        let items: Vec<Obj> = v.into_iter().map(|x| x.to_obj(py)).collect::<PyResult<_>>()?;
        unsafe {
            let t = PyTuple_New(items.len() as isize);
            for (i, o) in items.into_iter().enumerate() {
                PyTuple_SetItem(t, i as isize, o);
            }
            Ok(Bound(Py::raw(t), PhantomData))
        }
    }
}

pub trait IntoTuple {
    fn into_tuple(self, py: Python<'_>) -> PyResult<Bound<'_, PyTuple>>;
}
impl IntoTuple for Bound<'_, PyTuple> {
    fn into_tuple(self, py: Python<'_>) -> PyResult<Bound<'_, PyTuple>> {
        Ok(self.0.into_bound(py))
    }
}
impl IntoTuple for &Bound<'_, PyTuple> {
    fn into_tuple(self, py: Python<'_>) -> PyResult<Bound<'_, PyTuple>> {
        Ok(self.0.clone_ref(py).into_bound(py))
    }
}
impl IntoTuple for () {
    fn into_tuple(self, py: Python<'_>) -> PyResult<Bound<'_, PyTuple>> {
        PyTuple::new(py, [] as [Py<PyAny>; 0])
    }
}
impl<A: ToObj> IntoTuple for (A,) {
    fn into_tuple(self, py: Python<'_>) -> PyResult<Bound<'_, PyTuple>> {
        PyTuple::new(py, [self.0])
    }
}

// ---------------------------------------------------------------- conversion

/// a Rust value to a new reference
pub trait ToObj {
    fn to_obj(self, py: Python<'_>) -> PyResult<Obj>;
}
fn made(o: Obj) -> PyResult<Obj> {
    if o.is_null() { Err(PyErr::fetch()) } else { Ok(o) }
}
impl<T> ToObj for Py<T> {
    fn to_obj(self, _: Python<'_>) -> PyResult<Obj> {
        let o = self.0;
        std::mem::forget(self);
        Ok(o)
    }
}
impl<T> ToObj for &Py<T> {
    fn to_obj(self, _: Python<'_>) -> PyResult<Obj> {
        unsafe { Py_IncRef(self.0) };
        Ok(self.0)
    }
}
impl<T> ToObj for Bound<'_, T> {
    fn to_obj(self, _: Python<'_>) -> PyResult<Obj> {
        Ok(self.into_raw())
    }
}
impl<T> ToObj for &Bound<'_, T> {
    fn to_obj(self, py: Python<'_>) -> PyResult<Obj> {
        (&self.0).to_obj(py)
    }
}
impl ToObj for &str {
    fn to_obj(self, _: Python<'_>) -> PyResult<Obj> {
        made(unsafe { PyUnicode_FromStringAndSize(self.as_ptr().cast(), self.len() as isize) })
    }
}
impl ToObj for String {
    fn to_obj(self, py: Python<'_>) -> PyResult<Obj> {
        self.as_str().to_obj(py)
    }
}
impl ToObj for &String {
    fn to_obj(self, py: Python<'_>) -> PyResult<Obj> {
        self.as_str().to_obj(py)
    }
}
impl ToObj for &[u8] {
    fn to_obj(self, _: Python<'_>) -> PyResult<Obj> {
        made(unsafe { PyBytes_FromStringAndSize(self.as_ptr().cast(), self.len() as isize) })
    }
}
impl ToObj for () {
    fn to_obj(self, _: Python<'_>) -> PyResult<Obj> {
        unsafe { Py_IncRef(none()) };
        Ok(none())
    }
}
impl ToObj for bool {
    fn to_obj(self, _: Python<'_>) -> PyResult<Obj> {
        made(unsafe { PyBool_FromLong(self.into()) })
    }
}
impl ToObj for f64 {
    fn to_obj(self, _: Python<'_>) -> PyResult<Obj> {
        made(unsafe { PyFloat_FromDouble(self) })
    }
}
impl<T: ToObj> ToObj for Option<T> {
    fn to_obj(self, py: Python<'_>) -> PyResult<Obj> {
        match self {
            Some(v) => v.to_obj(py),
            None => ().to_obj(py),
        }
    }
}
impl<T: ToObj> ToObj for Vec<T> {
    fn to_obj(self, py: Python<'_>) -> PyResult<Obj> {
        let items: Vec<Obj> = self.into_iter().map(|x| x.to_obj(py)).collect::<PyResult<_>>()?;
        unsafe {
            let t = made(PyList_New(items.len() as isize))?;
            for (i, o) in items.into_iter().enumerate() {
                PyList_SetItem(t, i as isize, o);
            }
            Ok(t)
        }
    }
}

/// a borrowed reference to a Rust value
pub trait FromPy: Sized {
    unsafe fn from_py(py: Python<'_>, o: Obj) -> PyResult<Self>;
    unsafe fn vec_from(py: Python<'_>, o: Obj) -> PyResult<Vec<Self>> {
        unsafe {
            if is(o, UNICODE) {
                return Err(PyErr::type_error("Can't extract `str` to `Vec`"));
            }
            if PySequence_Check(o) != 1 {
                return Err(PyErr::type_error(&format!("'{}' object cannot be cast as 'Sequence'", type_name(o))));
            }
            let n = PySequence_Size(o);
            if n < 0 {
                return Err(PyErr::fetch());
            }
            let mut v = vec![];
            for i in 0..n {
                let x = PySequence_GetItem(o, i);
                if x.is_null() {
                    return Err(PyErr::fetch());
                }
                let r = Self::from_py(py, x);
                Py_DecRef(x);
                v.push(r?);
            }
            Ok(v)
        }
    }
}

macro_rules! ints {
    ($get:ident, $put:ident, $as:ident: $($t:ident)*) => {$(
        impl FromPy for $t {
            unsafe fn from_py(_: Python<'_>, o: Obj) -> PyResult<Self> { unsafe {
                let i = PyNumber_Index(o);
                if i.is_null() { return Err(PyErr::fetch()); }
                let v = $get(i);
                Py_DecRef(i);
                if !PyErr_Occurred().is_null() { return Err(PyErr::fetch()); }
                $t::try_from(v).map_err(|e| PyErr::of(PyExc_OverflowError, e.to_string()))
            }}
        }
        impl ToObj for $t {
            fn to_obj(self, _: Python<'_>) -> PyResult<Obj> { made(unsafe { $put(self as $as) }) }
        }
    )*};
}
ints!(PyLong_AsLongLong, PyLong_FromLongLong, i64: i8 i16 i32 i64 isize u16 u32);
ints!(PyLong_AsUnsignedLongLong, PyLong_FromUnsignedLongLong, u64: u64 usize);

impl FromPy for u8 {
    unsafe fn from_py(py: Python<'_>, o: Obj) -> PyResult<Self> {
        let v = unsafe { i64::from_py(py, o)? };
        u8::try_from(v).map_err(|e| PyErr::of(unsafe { PyExc_OverflowError }, e.to_string()))
    }
    unsafe fn vec_from(py: Python<'_>, o: Obj) -> PyResult<Vec<u8>> {
        unsafe {
            if is(o, BYTES) {
                return Ok(<&[u8]>::from_py(py, o)?.to_vec());
            }
            if is(o, UNICODE) {
                return Err(PyErr::type_error("Can't extract `str` to `Vec`"));
            }
            if PySequence_Check(o) != 1 {
                return Err(PyErr::type_error(&format!("'{}' object cannot be cast as 'Sequence'", type_name(o))));
            }
            (0..PySequence_Size(o).max(0))
                .map(|i| {
                    let x = PySequence_GetItem(o, i);
                    if x.is_null() {
                        return Err(PyErr::fetch());
                    }
                    let r = u8::from_py(py, x);
                    Py_DecRef(x);
                    r
                })
                .collect()
        }
    }
}
impl FromPy for bool {
    unsafe fn from_py(_: Python<'_>, o: Obj) -> PyResult<Self> {
        unsafe {
            if type_name(o) != "bool" {
                return Err(PyErr::type_error(&format!("'{}' object cannot be cast as 'bool'", type_name(o))));
            }
            Ok(PyObject_IsTrue(o) == 1)
        }
    }
}
impl FromPy for f64 {
    unsafe fn from_py(_: Python<'_>, o: Obj) -> PyResult<Self> {
        unsafe {
            let v = PyFloat_AsDouble(o);
            if !PyErr_Occurred().is_null() { Err(PyErr::fetch()) } else { Ok(v) }
        }
    }
}
impl FromPy for &[u8] {
    unsafe fn from_py(_: Python<'_>, o: Obj) -> PyResult<Self> {
        unsafe {
            if !is(o, BYTES) {
                return Err(PyErr::type_error(&format!("'{}' object cannot be cast as 'bytes'", type_name(o))));
            }
            let (mut p, mut n) = (std::ptr::null_mut(), 0);
            if PyBytes_AsStringAndSize(o, &mut p, &mut n) != 0 {
                return Err(PyErr::fetch());
            }
            Ok(std::slice::from_raw_parts(p.cast(), n as usize))
        }
    }
}
impl FromPy for &str {
    unsafe fn from_py(_: Python<'_>, o: Obj) -> PyResult<Self> {
        unsafe {
            if !is(o, UNICODE) {
                return Err(PyErr::type_error(&format!("'{}' object cannot be cast as 'str'", type_name(o))));
            }
            let mut n = 0;
            let p = PyUnicode_AsUTF8AndSize(o, &mut n);
            if p.is_null() {
                return Err(PyErr::fetch());
            }
            Ok(std::str::from_utf8_unchecked(std::slice::from_raw_parts(p.cast(), n as usize)))
        }
    }
}
impl FromPy for String {
    unsafe fn from_py(py: Python<'_>, o: Obj) -> PyResult<Self> {
        Ok(unsafe { <&str>::from_py(py, o)? }.to_owned())
    }
}
impl FromPy for OsString {
    unsafe fn from_py(py: Python<'_>, o: Obj) -> PyResult<Self> {
        unsafe {
            if !is(o, UNICODE) {
                return Err(PyErr::type_error(&format!("'{}' object cannot be cast as 'str'", type_name(o))));
            }
            let b = made(PyUnicode_EncodeFSDefault(o))?;
            let v = <&[u8]>::from_py(py, b)?.to_vec();
            Py_DecRef(b);
            Ok(std::os::unix::ffi::OsStringExt::from_vec(v))
        }
    }
}
impl FromPy for PathBuf {
    unsafe fn from_py(py: Python<'_>, o: Obj) -> PyResult<Self> {
        unsafe { Ok(OsString::from_py(py, o)?.into()) }
    }
}
impl FromPy for Py<PyAny> {
    unsafe fn from_py(_: Python<'_>, o: Obj) -> PyResult<Self> {
        unsafe {
            Py_IncRef(o);
            Ok(Py::raw(o))
        }
    }
}
impl FromPy for Bound<'_, PyAny> {
    unsafe fn from_py(py: Python<'_>, o: Obj) -> PyResult<Self> {
        unsafe { Ok(Bound(Py::from_py(py, o)?, PhantomData)) }
    }
}
impl<T: FromPy> FromPy for Option<T> {
    unsafe fn from_py(py: Python<'_>, o: Obj) -> PyResult<Self> {
        if o == none() { Ok(None) } else { unsafe { T::from_py(py, o).map(Some) } }
    }
}
impl<T: FromPy> FromPy for Vec<T> {
    unsafe fn from_py(py: Python<'_>, o: Obj) -> PyResult<Self> {
        unsafe { T::vec_from(py, o) }
    }
}

// ---------------------------------------------------------------- errors

pub type PyResult<T> = Result<T, PyErr>;

enum ErrState {
    Lazy(usize, String),
    Raised(Py<PyAny>, Option<Py<PyAny>>),
}
pub struct PyErr(ErrState);

pub trait PyTypeInfo {
    fn type_object() -> usize;
}
pub trait PyErrArguments {
    fn message(self) -> String;
}
impl PyErrArguments for String {
    fn message(self) -> String {
        self
    }
}
impl PyErrArguments for &str {
    fn message(self) -> String {
        self.into()
    }
}
impl PyErrArguments for () {
    fn message(self) -> String {
        String::new()
    }
}

impl PyErr {
    pub fn new<T: PyTypeInfo, A: PyErrArguments>(a: A) -> PyErr {
        PyErr(ErrState::Lazy(T::type_object(), a.message()))
    }
    fn of(t: Obj, m: String) -> PyErr {
        PyErr(ErrState::Lazy(t as usize, m))
    }
    fn type_error(m: &str) -> PyErr {
        Self::of(unsafe { PyExc_TypeError }, m.into())
    }
    fn fetch() -> PyErr {
        unsafe {
            let (mut t, mut v, mut tb) = (std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
            PyErr_Fetch(&mut t, &mut v, &mut tb);
            if t.is_null() {
                return Self::of(PyExc_SystemError, "attempted to fetch exception but none was set".into());
            }
            PyErr_NormalizeException(&mut t, &mut v, &mut tb);
            Py_DecRef(t);
            if let Some(p) = PANIC.get() {
                if PyErr_GivenExceptionMatches(v, *p as Obj) == 1 {
                    // a panic that crossed Python goes on as a panic
                    let m = text(v);
                    std::panic::resume_unwind(Box::new(m));
                }
            }
            PyErr(ErrState::Raised(Py::raw(v), if tb.is_null() { None } else { Some(Py::raw(tb)) }))
        }
    }
    pub fn restore(self, _py: Python<'_>) {
        unsafe {
            match self.0 {
                ErrState::Lazy(t, m) => {
                    let s = PyUnicode_FromStringAndSize(m.as_ptr().cast(), m.len() as isize);
                    PyErr_SetObject(t as Obj, s);
                    Py_DecRef(s);
                }
                ErrState::Raised(v, tb) => {
                    let t = (*v.0).ty;
                    Py_IncRef(t);
                    let (o, b) = (v.0, tb.as_ref().map_or(std::ptr::null_mut(), |x| x.0));
                    std::mem::forget((v, tb));
                    PyErr_Restore(t, o, b);
                }
            }
        }
    }
    fn is(&self, t: Obj) -> bool {
        unsafe {
            match &self.0 {
                ErrState::Lazy(k, _) => PyErr_GivenExceptionMatches(*k as Obj, t) == 1,
                ErrState::Raised(v, _) => PyErr_GivenExceptionMatches(v.0, t) == 1,
            }
        }
    }
    pub fn is_instance_of<T: PyTypeInfo>(&self, _py: Python<'_>) -> bool {
        self.is(T::type_object() as Obj)
    }
}
impl fmt::Display for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Python::attach(|_| unsafe {
            match &self.0 {
                ErrState::Lazy(t, m) => write!(f, "{}: {m}", attr_text(*t as Obj, c"__name__")),
                ErrState::Raised(v, _) => write!(f, "{}: {}", type_name(v.0), text(v.0)),
            }
        })
    }
}
impl fmt::Debug for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "PyErr({self})")
    }
}
impl std::error::Error for PyErr {}
impl From<PyErr> for std::io::Error {
    fn from(e: PyErr) -> Self {
        use std::io::ErrorKind as K;
        let kind = unsafe {
            if e.is(PyExc_BrokenPipeError) {
                K::BrokenPipe
            } else if e.is(PyExc_FileNotFoundError) {
                K::NotFound
            } else if e.is(PyExc_PermissionError) {
                K::PermissionDenied
            } else if e.is(PyExc_InterruptedError) {
                K::Interrupted
            } else if e.is(PyExc_TimeoutError) {
                K::TimedOut
            } else {
                K::Other
            }
        };
        std::io::Error::new(kind, e)
    }
}
impl From<std::io::Error> for PyErr {
    fn from(e: std::io::Error) -> Self {
        PyErr::of(unsafe { PyExc_OSError }, e.to_string())
    }
}

pub mod exceptions {
    macro_rules! exc {
        ($($n:ident $o:ident)*) => {$(
            pub struct $n;
            impl $n {
                #[allow(clippy::new_ret_no_self)]
                pub fn new_err<A: crate::PyErrArguments>(a: A) -> crate::PyErr { crate::PyErr::new::<$n, A>(a) }
            }
            impl crate::PyTypeInfo for $n {
                fn type_object() -> usize { unsafe { crate::$o as usize } }
            }
        )*};
    }
    exc!(PyBaseException PyExc_BaseException PyException PyExc_Exception PyRuntimeError PyExc_RuntimeError
        PyTypeError PyExc_TypeError PyValueError PyExc_ValueError PyOverflowError PyExc_OverflowError PyOSError PyExc_OSError
        PyIOError PyExc_OSError PyKeyError PyExc_KeyError PyIndexError PyExc_IndexError);
}

static PANIC: OnceLock<usize> = OnceLock::new();

// ---------------------------------------------------------------- classes

pub trait PyClass: Sized + 'static {
    const NAME: &'static str;
    const UNSENDABLE: bool;
    fn cell() -> &'static OnceLock<usize>;
}

#[repr(C)]
struct Instance<T> {
    base: RawObject,
    thread: std::thread::ThreadId,
    value: T,
}

impl<T: PyClass + impl_::Methods> Py<T> {
    pub fn new(_py: Python<'_>, value: T) -> PyResult<Py<T>> {
        unsafe {
            let t = impl_::type_object::<T>()?;
            let alloc: unsafe extern "C" fn(Obj, isize) -> Obj = std::mem::transmute(PyType_GetSlot(t, 47));
            let o = alloc(t, 0);
            if o.is_null() {
                return Err(PyErr::fetch());
            }
            let i = o.cast::<Instance<T>>();
            (&raw mut (*i).thread).write(std::thread::current().id());
            (&raw mut (*i).value).write(value);
            Ok(Py::raw(o))
        }
    }
}

#[doc(hidden)]
pub mod impl_ {
    use super::*;
    pub use super::Obj;
    use std::panic::{AssertUnwindSafe, catch_unwind};

    pub type Func = unsafe extern "C" fn(Obj, Obj, Obj) -> Obj;

    pub trait Methods {
        fn methods() -> Vec<(&'static str, Func)>;
    }

    pub fn trampoline(f: impl FnOnce(Python<'_>) -> PyResult<Obj>) -> Obj {
        let py = unsafe { Python::assume() };
        match catch_unwind(AssertUnwindSafe(|| f(py))) {
            Ok(Ok(o)) => o,
            Ok(Err(e)) => {
                e.restore(py);
                std::ptr::null_mut()
            }
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
                    .unwrap_or_else(|| "panic from Rust code".into());
                let t = *PANIC.get_or_init(|| unsafe {
                    PyErr_NewException(c"pyo3_runtime.PanicException".as_ptr(), PyExc_BaseException, std::ptr::null_mut()) as usize
                });
                PyErr::of(t as Obj, m).restore(py);
                std::ptr::null_mut()
            }
        }
    }

    pub trait Finish {
        fn finish(self, py: Python<'_>) -> PyResult<Obj>;
    }
    impl<T: ToObj, E: Into<PyErr>> Finish for Result<T, E> {
        fn finish(self, py: Python<'_>) -> PyResult<Obj> {
            self.map_err(Into::into)?.to_obj(py)
        }
    }
    macro_rules! plain {
        ($($t:ty)*) => {$(impl Finish for $t { fn finish(self, py: Python<'_>) -> PyResult<Obj> { self.to_obj(py) } })*};
    }
    plain!(() String &str bool f64 i8 i16 i32 i64 isize u16 u32 u64 usize Py<PyAny>);
    impl<T: ToObj> Finish for Option<T> {
        fn finish(self, py: Python<'_>) -> PyResult<Obj> {
            self.to_obj(py)
        }
    }
    pub fn finish<R: Finish>(py: Python<'_>, r: R) -> PyResult<Obj> {
        r.finish(py)
    }

    pub unsafe fn extract<T: FromPy>(py: Python<'_>, o: Obj, name: &str) -> PyResult<T> {
        unsafe {
            T::from_py(py, o).map_err(|e| {
                if e.is(PyExc_TypeError) {
                    let m = match &e.0 {
                        ErrState::Lazy(_, m) => m.clone(),
                        ErrState::Raised(v, _) => text(v.0),
                    };
                    PyErr::type_error(&format!("argument '{name}': {m}"))
                } else {
                    e
                }
            })
        }
    }

    #[allow(clippy::too_many_arguments)]
    pub unsafe fn parse_args<const N: usize>(
        _py: Python<'_>,
        args: Obj,
        kwargs: Obj,
        f: &str,
        names: &[&str; N],
        required: &[bool; N],
        posonly: usize,
        kwonly: usize,
    ) -> PyResult<[Option<Obj>; N]> {
        unsafe {
            let mut got: [Option<Obj>; N] = [None; N];
            let n = if args.is_null() { 0 } else { PyTuple_Size(args) as usize };
            let most = kwonly.min(N);
            if n > most {
                return Err(PyErr::type_error(&format!("{f}() takes {most} positional arguments but {n} were given")));
            }
            for (i, g) in got.iter_mut().enumerate().take(n) {
                *g = Some(PyTuple_GetItem(args, i as isize));
            }
            if !kwargs.is_null() {
                let (mut pos, mut k, mut v) = (0, std::ptr::null_mut(), std::ptr::null_mut());
                while PyDict_Next(kwargs, &mut pos, &mut k, &mut v) != 0 {
                    let key = text(k);
                    match names.iter().position(|x| *x == key) {
                        Some(i) if i >= posonly => {
                            if got[i].is_some() {
                                return Err(PyErr::type_error(&format!("{f}() got multiple values for argument '{key}'")));
                            }
                            got[i] = Some(v);
                        }
                        _ => return Err(PyErr::type_error(&format!("{f}() got an unexpected keyword argument '{key}'"))),
                    }
                }
            }
            for i in 0..N {
                if required[i] && got[i].is_none() {
                    return Err(PyErr::type_error(&format!("{f}() missing 1 required positional argument: '{}'", names[i])));
                }
            }
            Ok(got)
        }
    }

    fn cs(s: &str) -> *const c_char {
        CString::new(s).unwrap().into_raw()
    }

    pub unsafe fn make_function(name: &str, f: Func) -> PyResult<Bound<'static, PyCFunction>> {
        unsafe {
            let d = Box::leak(Box::new(super::MethodDef { name: cs(name), f: Some(f), flags: 3, doc: std::ptr::null() }));
            let o = PyCMethod_New(d, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
            if o.is_null() { Err(PyErr::fetch()) } else { Ok(Bound(Py::raw(o), PhantomData)) }
        }
    }

    pub unsafe fn new_module<'py>(_py: Python<'py>, name: &str) -> PyResult<Bound<'py, PyModule>> {
        unsafe {
            let d = Box::leak(Box::new(super::ModuleDef {
                base: RawObject { refs: 1, ty: std::ptr::null_mut() },
                init: std::ptr::null(),
                index: 0,
                copy: std::ptr::null_mut(),
                name: cs(name),
                doc: std::ptr::null(),
                size: -1,
                methods: std::ptr::null(),
                slots: std::ptr::null(),
                traverse: std::ptr::null(),
                clear: std::ptr::null(),
                free: std::ptr::null(),
            }));
            let m = PyModule_Create2(d, 3);
            if m.is_null() { Err(PyErr::fetch()) } else { Ok(Bound(Py::raw(m), PhantomData)) }
        }
    }

    unsafe extern "C" fn dealloc<T: PyClass>(o: Obj) {
        unsafe {
            let t = (*o).ty;
            let i = o.cast::<Instance<T>>();
            if T::UNSENDABLE && (*i).thread != std::thread::current().id() {
                PyErr::of(PyExc_RuntimeError, format!("{} is unsendable, but is being dropped on another thread", T::NAME)).restore(Python::assume());
                PyErr_WriteUnraisable(std::ptr::null_mut());
            } else {
                std::ptr::drop_in_place(&raw mut (*i).value);
            }
            let free: unsafe extern "C" fn(*mut c_void) = std::mem::transmute(PyType_GetSlot(t, 74));
            free(o.cast());
            Py_DecRef(t);
        }
    }

    unsafe extern "C" fn slot<T: Methods, const STR: bool>(o: Obj) -> Obj {
        let want = if STR { "__str__" } else { "__repr__" };
        let f = T::methods().into_iter().find(|m| m.0 == want).unwrap().1;
        unsafe { f(o, std::ptr::null_mut(), std::ptr::null_mut()) }
    }

    pub unsafe fn type_object<T: PyClass + Methods>() -> PyResult<Obj> {
        if let Some(t) = T::cell().get() {
            return Ok(*t as Obj);
        }
        unsafe {
            let all = T::methods();
            let mut slots = vec![Slot { slot: 52, p: dealloc::<T> as *const c_void }];
            let mut defs = vec![];
            for (n, f) in &all {
                match *n {
                    "__repr__" => slots.push(Slot { slot: 66, p: slot::<T, false> as *const c_void }),
                    "__str__" => slots.push(Slot { slot: 70, p: slot::<T, true> as *const c_void }),
                    _ => defs.push(super::MethodDef { name: cs(n), f: Some(*f), flags: 3, doc: std::ptr::null() }),
                }
            }
            defs.push(super::MethodDef { name: std::ptr::null(), f: None, flags: 0, doc: std::ptr::null() });
            slots.push(Slot { slot: 64, p: Vec::leak(defs).as_ptr().cast() });
            slots.push(Slot { slot: 0, p: std::ptr::null() });
            let spec = Box::leak(Box::new(Spec {
                name: cs(&format!("builtins.{}", T::NAME)),
                basicsize: size_of::<Instance<T>>() as c_int,
                itemsize: 0,
                flags: (1 << 18) | (1 << 7),
                slots: Vec::leak(slots).as_ptr(),
            }));
            let t = PyType_FromSpec(spec);
            if t.is_null() {
                return Err(PyErr::fetch());
            }
            Ok(*T::cell().get_or_init(|| t as usize) as Obj)
        }
    }

    pub unsafe fn contents<'a, T: PyClass + Methods>(_py: Python<'a>, o: Obj) -> PyResult<&'a mut T> {
        unsafe {
            let t = type_object::<T>()?;
            if (*o).ty != t && PyType_IsSubtype((*o).ty, t) != 1 {
                return Err(PyErr::type_error(&format!("'{}' object cannot be cast as '{}'", type_name(o), T::NAME)));
            }
            let i = o.cast::<Instance<T>>();
            assert!(
                !T::UNSENDABLE || (*i).thread == std::thread::current().id(),
                "{} is unsendable, but sent to another thread",
                T::NAME
            );
            Ok(&mut (*i).value)
        }
    }
}

pub use impl_::Methods;
pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction};

pub mod types {
    pub use crate::{PyAny, PyCFunction, PyModule, PyString, PyTuple};
}

pub mod prelude {
    pub use crate::{
        Bound, Py, PyAny, PyErr, PyModule, PyObject, PyResult, Python, pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction,
    };
}
