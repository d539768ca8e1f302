/* A small stand-in for the CPython runtime and for numpy, as far as the generated C of the bindings needs it.
 * Included after the generated C of one module.  Objects have CPython's layout where the generated code looks inside
 * (float, tuple, list, ndarray, the extension types); all else is opaque.  Values of numbers may be symbolic. */
#include "vp.h"
typedef struct { PyObject ob_base; long v; } r_int;
typedef struct { PyASCIIObject a; const char *s; } r_str;              /* str and bytes */
typedef struct { PyObject ob_base; int n; struct { PyObject *k, *v; } e[60]; } r_dict;
typedef struct { PyObject ob_base; int kind; PyObject *self; PyMethodDef *m; } r_func;
typedef struct { PyObject ob_base; char *data; int nd; Py_ssize_t *dim, *str; PyObject *base, *descr; int flags; } r_arr;
typedef struct { PyObject ob_base; PyObject *seq; Py_ssize_t i; } r_iter;
enum { F_METH, F_TYPE, F_EMPTY, F_ZEROS, F_EMPTY_LIKE, F_COPY, F_FULL, F_ANY, F_ASCONT, F_LINSPACE, F_ENCODE, F_KEYS, F_RANGE, F_ENUM, F_ZIP, F_STR };
#define HEAD PyVarObject_HEAD_INIT(&PyType_Type, 0)
extern PyTypeObject PyType_Type;
PyTypeObject PyType_Type = { HEAD .tp_name = "type", .tp_flags = Py_TPFLAGS_TYPE_SUBCLASS };
PyTypeObject PyBaseObject_Type = { HEAD .tp_name = "object" };
PyTypeObject PyFloat_Type = { HEAD .tp_name = "float" };
PyTypeObject PyLong_Type = { HEAD .tp_name = "int", .tp_flags = Py_TPFLAGS_LONG_SUBCLASS };
PyTypeObject PyBool_Type = { HEAD .tp_name = "bool", .tp_flags = Py_TPFLAGS_LONG_SUBCLASS };
PyTypeObject PyTuple_Type = { HEAD .tp_name = "tuple", .tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS };
PyTypeObject PyList_Type = { HEAD .tp_name = "list", .tp_flags = Py_TPFLAGS_LIST_SUBCLASS };
PyTypeObject PyDict_Type = { HEAD .tp_name = "dict", .tp_flags = Py_TPFLAGS_DICT_SUBCLASS };
PyTypeObject PyUnicode_Type = { HEAD .tp_name = "str", .tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS };
PyTypeObject PyBytes_Type = { HEAD .tp_name = "bytes", .tp_flags = Py_TPFLAGS_BYTES_SUBCLASS };
PyTypeObject PyByteArray_Type = { HEAD .tp_name = "bytearray" };
PyTypeObject PyCFunction_Type = { HEAD .tp_name = "builtin" };
PyTypeObject PyMethodDescr_Type = { HEAD .tp_name = "method" }, PyWrapperDescr_Type = { HEAD .tp_name = "wrapper" };
PyTypeObject PyTraceBack_Type = { HEAD .tp_name = "traceback" };
PyTypeObject R_None = { HEAD .tp_name = "NoneType" }, R_Module = { HEAD .tp_name = "module" }, R_Func = { HEAD .tp_name = "function" };
PyTypeObject R_Array = { HEAD .tp_name = "ndarray" }, R_Iter = { HEAD .tp_name = "iterator" }, R_Slice = { HEAD .tp_name = "slice" };
#define EXC(n) static PyTypeObject R_##n = { HEAD .tp_name = #n, .tp_flags = Py_TPFLAGS_TYPE_SUBCLASS | Py_TPFLAGS_BASE_EXC_SUBCLASS }; PyObject *PyExc_##n = (PyObject *)&R_##n;
EXC(AttributeError) EXC(DeprecationWarning) EXC(IndexError) EXC(KeyError) EXC(NameError) EXC(OverflowError) EXC(RuntimeError) EXC(StopIteration) EXC(SystemError) EXC(TypeError) EXC(UnboundLocalError) EXC(ValueError) EXC(ZeroDivisionError) EXC(IOError) EXC(MemoryError) EXC(Exception) EXC(ImportError)
struct _longobject _Py_TrueStruct = { .ob_base = { { 1000 }, &PyBool_Type } }, _Py_FalseStruct = { .ob_base = { { 1000 }, &PyBool_Type } };
PyObject _Py_NoneStruct = { { 1000 }, &R_None };
char _PyByteArray_empty_string[1];
static PyObject r_numpy = { { 1000 }, &R_Module }, r_builtins = { { 1000 }, &R_Module }, r_r = { { 1000 }, &R_Module }, r_float64 = { { 1000 }, &R_Module }, r_int_ = { { 1000 }, &R_Module };
static PyObject *r_err;
/* ---- making objects */
static void *r_alloc(size_t n, PyTypeObject *t) { PyObject *o = calloc(1, n); o->ob_refcnt = 1000; o->ob_type = t; return o; }
PyObject *PyFloat_FromDouble(double v) { PyFloatObject *o = r_alloc(sizeof *o, &PyFloat_Type); o->ob_fval = v; return (PyObject *)o; }
PyObject *PyLong_FromLong(long v) { r_int *o = r_alloc(sizeof *o, &PyLong_Type); o->v = v; return (PyObject *)o; }
PyObject *PyLong_FromSsize_t(Py_ssize_t v) { return PyLong_FromLong(v); }
PyObject *PyLong_FromSize_t(size_t v) { return PyLong_FromLong((long)v); }
static PyObject *r_string(const char *s, PyTypeObject *t) { r_str *o = r_alloc(sizeof *o, t); o->s = s; o->a.length = strlen(s); return (PyObject *)o; }
PyObject *PyUnicode_InternFromString(const char *s) { return r_string(s, &PyUnicode_Type); }
PyObject *PyUnicode_FromString(const char *s) { return r_string(s, &PyUnicode_Type); }
PyObject *PyUnicode_FromStringAndSize(const char *s, Py_ssize_t n) { return r_string(s, &PyUnicode_Type); }
PyObject *PyUnicode_Decode(const char *s, Py_ssize_t n, const char *e, const char *x) { return r_string(s, &PyUnicode_Type); }
PyObject *PyBytes_FromStringAndSize(const char *s, Py_ssize_t n) { return r_string(s, &PyBytes_Type); }
PyObject *PyBytes_FromString(const char *s) { return r_string(s, &PyBytes_Type); }
static const char *r_text(PyObject *o) { return ((r_str *)o)->s; }
#define S(x) PyUnicode_FromString(x)
#define B(x) PyBytes_FromString(x)
#define D(x) PyFloat_FromDouble(x)
#define I(x) PyLong_FromLong(x)
PyObject *PyTuple_New(Py_ssize_t n) { PyTupleObject *o = r_alloc(sizeof *o + 8 * n, &PyTuple_Type); o->ob_base.ob_size = n; return (PyObject *)o; }
PyObject *PyList_New(Py_ssize_t n) { PyListObject *o = r_alloc(sizeof *o, &PyList_Type); o->ob_base.ob_size = o->allocated = n; o->ob_item = calloc(n + 1, 8); return (PyObject *)o; }
static PyObject *r_pack(Py_ssize_t n, PyObject **v)
{ PyObject *t = PyTuple_New(n); Py_ssize_t i; for (i = 0; i < n; i++) ((PyTupleObject *)t)->ob_item[i] = v[i]; return t; }
static PyObject *T1(PyObject *a) { PyObject *t = PyTuple_New(1); ((PyTupleObject *)t)->ob_item[0] = a; return t; }
static PyObject *T2(PyObject *a, PyObject *b) { PyObject *t = PyTuple_New(2); ((PyTupleObject *)t)->ob_item[0] = a; ((PyTupleObject *)t)->ob_item[1] = b; return t; }
static PyObject *T3(PyObject *a, PyObject *b, PyObject *c) { PyObject *t = PyTuple_New(3); ((PyTupleObject *)t)->ob_item[0] = a; ((PyTupleObject *)t)->ob_item[1] = b; ((PyTupleObject *)t)->ob_item[2] = c; return t; }
static PyObject *r_func_new(int kind, PyObject *self, PyMethodDef *m) { r_func *f = r_alloc(sizeof *f, &R_Func); f->kind = kind; f->self = self; f->m = m; return (PyObject *)f; }
static r_arr *r_array(int nd, Py_ssize_t d0, Py_ssize_t d1, Py_ssize_t d2, int item)
{
    r_arr *a = r_alloc(sizeof *a, &R_Array); Py_ssize_t n = item; int i;
    a->nd = nd; a->dim = calloc(3, 8); a->str = calloc(3, 8); a->dim[0] = d0; a->dim[1] = d1; a->dim[2] = d2;
    for (i = nd - 1; i >= 0; i--) { a->str[i] = n; n *= a->dim[i]; }
    a->data = malloc(n ? n : 1); a->flags = item == 4 ? 1 : item == 1 ? 2 : 0; a->descr = item == 8 ? &r_float64 : &r_int_;
    return a;
}
static int r_item(r_arr *a) { return a->flags == 1 ? 4 : a->flags == 2 ? 1 : 8; }
static double *AT2(r_arr *a, int i, int j) { return (double *)(a->data + i * a->str[0] + j * a->str[1]); }
/* ---- errors */
static PyObject *r_raise(PyObject *e) { r_err = e; return NULL; }
PyObject *PyErr_Occurred(void) { return r_err; }
void PyErr_Clear(void) { r_err = NULL; }
void PyErr_SetString(PyObject *e, const char *s) { r_err = e; }
void PyErr_SetObject(PyObject *e, PyObject *v) { r_err = e; }
void PyErr_SetNone(PyObject *e) { r_err = e; }
PyObject *PyErr_Format(PyObject *e, const char *f, ...) { r_err = e; return NULL; }
PyObject *PyErr_NoMemory(void) { r_err = PyExc_MemoryError; return NULL; }
void PyErr_Fetch(PyObject **t, PyObject **v, PyObject **b) { *t = r_err; *v = *b = NULL; r_err = NULL; }
void PyErr_Restore(PyObject *t, PyObject *v, PyObject *b) { r_err = t; }
int PyErr_ExceptionMatches(PyObject *e) { return r_err == e; }
int PyErr_GivenExceptionMatches(PyObject *a, PyObject *b) { return a == b; }
int PyErr_WarnFormat(PyObject *c, Py_ssize_t l, const char *f, ...) { return 0; }
int PyErr_WarnEx(PyObject *c, const char *f, Py_ssize_t l) { return 0; }
PyCodeObject *PyCode_NewEmpty(const char *a, const char *b, int l) { return r_alloc(512, &R_Module); }
PyFrameObject *PyFrame_New(PyThreadState *t, PyCodeObject *c, PyObject *g, PyObject *l) { return NULL; }
int PyTraceBack_Here(PyFrameObject *f) { return 0; }
PyThreadState *PyThreadState_Get(void) { return NULL; }
int Py_EnterRecursiveCall(const char *w) { return 0; }
void Py_LeaveRecursiveCall(void) { }
void PyException_SetCause(PyObject *e, PyObject *c) { }
PyObject **_PyObject_GetDictPtr(PyObject *o) { return NULL; }
void _Py_Dealloc(PyObject *o) { }
void *PyMem_Malloc(size_t n) { return malloc(n); }
void *PyMem_Realloc(void *p, size_t n) { return realloc(p, n); }
void PyMem_Free(void *p) { free(p); }
PyObject *PyUnicode_FromFormat(const char *f, ...) { return S("?"); }
/* ---- numbers and truth */
double PyFloat_AsDouble(PyObject *o)
{
    if (Py_TYPE(o) == &PyFloat_Type) return ((PyFloatObject *)o)->ob_fval;
    if (Py_TYPE(o) == &PyLong_Type) return (double)((r_int *)o)->v;
    r_err = PyExc_TypeError; return -1;
}
long PyLong_AsLong(PyObject *o)
{
    if (Py_TYPE(o) == &PyLong_Type) return ((r_int *)o)->v;
    if (o == Py_True) return 1;
    if (o == Py_False) return 0;
    r_err = PyExc_TypeError; return -1;
}
Py_ssize_t PyLong_AsSsize_t(PyObject *o) { return PyLong_AsLong(o); }
size_t PyLong_AsSize_t(PyObject *o) { return PyLong_AsLong(o); }
unsigned long PyLong_AsUnsignedLong(PyObject *o) { return PyLong_AsLong(o); }
PyObject *PyNumber_Index(PyObject *o) { return o; }
PyObject *PyNumber_Long(PyObject *o) { if (Py_TYPE(o) == &PyLong_Type) return o; return r_raise(PyExc_TypeError); }
PyObject *PyNumber_Add(PyObject *a, PyObject *b)
{
    if (Py_TYPE(a) == &PyLong_Type && Py_TYPE(b) == &PyLong_Type) return I(((r_int *)a)->v + ((r_int *)b)->v);
    if (Py_TYPE(a) == &PyFloat_Type || Py_TYPE(b) == &PyFloat_Type) return D(PyFloat_AsDouble(a) + PyFloat_AsDouble(b));
    if (Py_TYPE(a) == &PyUnicode_Type) return a;
    return r_raise(PyExc_TypeError);
}
PyObject *PyNumber_InPlaceAdd(PyObject *a, PyObject *b) { return PyNumber_Add(a, b); }
int PyObject_IsTrue(PyObject *o)
{
    if (o == Py_True) return 1;
    if (o == Py_False || o == Py_None) return 0;
    if (Py_TYPE(o) == &PyLong_Type) return ((r_int *)o)->v != 0;
    if (Py_TYPE(o) == &PyFloat_Type) return ((PyFloatObject *)o)->ob_fval != 0;
    return 1;
}
int PyObject_Not(PyObject *o) { return !PyObject_IsTrue(o); }
/* equality: numbers (booleans are numbers), strings, tuples */
static int r_isnum(PyObject *o) { return Py_TYPE(o) == &PyLong_Type || Py_TYPE(o) == &PyFloat_Type || Py_TYPE(o) == &PyBool_Type; }
static double r_num(PyObject *o) { return o == Py_True ? 1 : o == Py_False ? 0 : PyFloat_AsDouble(o); }
static int r_eq(PyObject *a, PyObject *b)
{
    Py_ssize_t i;
    if (a == b) return 1;
    if (r_isnum(a) && r_isnum(b)) return r_num(a) == r_num(b);
    if (Py_TYPE(a) != Py_TYPE(b)) return 0;
    if (Py_TYPE(a) == &PyUnicode_Type || Py_TYPE(a) == &PyBytes_Type) return strcmp(r_text(a), r_text(b)) == 0;
    if (Py_TYPE(a) == &PyTuple_Type) {
        if (Py_SIZE(a) != Py_SIZE(b)) return 0;
        for (i = 0; i < Py_SIZE(a); i++) if (!r_eq(((PyTupleObject *)a)->ob_item[i], ((PyTupleObject *)b)->ob_item[i])) return 0;
        return 1;
    }
    return 0;
}
int PyObject_RichCompareBool(PyObject *a, PyObject *b, int op)
{
    if (op == Py_EQ) return r_eq(a, b);
    if (op == Py_NE) return !r_eq(a, b);
    if (op == Py_LT) return r_num(a) < r_num(b);
    if (op == Py_LE) return r_num(a) <= r_num(b);
    if (op == Py_GT) return r_num(a) > r_num(b);
    return r_num(a) >= r_num(b);
}
PyObject *PyObject_RichCompare(PyObject *a, PyObject *b, int op) { return PyObject_RichCompareBool(a, b, op) ? Py_True : Py_False; }
int PyUnicode_Compare(PyObject *a, PyObject *b) { return strcmp(r_text(a), r_text(b)); }
Py_hash_t PyObject_Hash(PyObject *o) { return 1; }
const char *PyUnicode_AsUTF8(PyObject *o) { return r_text(o); }
const char *PyUnicode_AsUTF8AndSize(PyObject *o, Py_ssize_t *n) { if (n) *n = strlen(r_text(o)); return r_text(o); }
int PyBytes_AsStringAndSize(PyObject *o, char **s, Py_ssize_t *n)
{ if (Py_TYPE(o) != &PyBytes_Type) { r_err = PyExc_TypeError; return -1; } *s = (char *)r_text(o); if (n) *n = strlen(*s); return 0; }
/* ---- dicts */
PyObject *PyDict_New(void) { return r_alloc(sizeof(r_dict), &PyDict_Type); }
static int r_find(PyObject *d, PyObject *k) { r_dict *x = (r_dict *)d; int i; for (i = 0; i < x->n; i++) if (r_eq(x->e[i].k, k)) return i; return -1; }
PyObject *PyDict_GetItem(PyObject *d, PyObject *k) { int i = d ? r_find(d, k) : -1; return i < 0 ? NULL : ((r_dict *)d)->e[i].v; }
PyObject *PyDict_GetItemWithError(PyObject *d, PyObject *k) { return PyDict_GetItem(d, k); }
int PyDict_SetItem(PyObject *d, PyObject *k, PyObject *v) { int i = r_find(d, k); if (i < 0) i = ((r_dict *)d)->n++; ((r_dict *)d)->e[i].k = k; ((r_dict *)d)->e[i].v = v; return 0; }
int PyDict_SetItemString(PyObject *d, const char *k, PyObject *v) { if (k[0] == 'c' && k[1] == 'o') return 0; return PyDict_SetItem(d, S(k), v); }
int PyDict_Contains(PyObject *d, PyObject *k) { return r_find(d, k) >= 0; }
int PyDict_DelItem(PyObject *d, PyObject *k) { return 0; }
Py_ssize_t PyDict_Size(PyObject *d) { return ((r_dict *)d)->n; }
PyObject *PyDict_Copy(PyObject *d) { r_dict *x = (r_dict *)PyDict_New(); *x = *(r_dict *)d; return (PyObject *)x; }
int PyDict_Next(PyObject *d, Py_ssize_t *p, PyObject **k, PyObject **v)
{ r_dict *x = (r_dict *)d; if (*p >= x->n) return 0; if (k) *k = x->e[*p].k; if (v) *v = x->e[*p].v; ++*p; return 1; }
static PyObject *DICT(void) { return PyDict_New(); }
static void PUT(PyObject *d, const char *k, PyObject *v) { PyDict_SetItem(d, S(k), v); }
/* ---- sequences */
static PyObject *r_arr_get(r_arr *a, Py_ssize_t i)      /* a[i] */
{
    r_arr *r;
    if (i < 0) i += a->dim[0];
    if (i < 0 || i >= a->dim[0]) return r_raise(PyExc_IndexError);
    if (a->nd == 1) return r_item(a) == 4 ? I(*(int *)(a->data + i * a->str[0])) : a->descr == &r_int_ ? I(*(long *)(a->data + i * a->str[0])) : D(*(double *)(a->data + i * a->str[0]));
    r = r_alloc(sizeof *r, &R_Array); *r = *a; r->nd--; r->dim++; r->str++; r->data += i * a->str[0]; r->base = (PyObject *)a;
    return (PyObject *)r;
}
static int r_arr_set(r_arr *a, Py_ssize_t i, PyObject *v)
{
    Py_ssize_t k;
    if (i < 0) i += a->dim[0];
    if (i < 0 || i >= a->dim[0]) { r_err = PyExc_IndexError; return -1; }
    if (a->nd == 1) { if (a->descr == &r_int_) *(long *)(a->data + i * a->str[0]) = PyLong_AsLong(v); else *(double *)(a->data + i * a->str[0]) = PyFloat_AsDouble(v); return 0; }
    for (k = 0; k < a->dim[1]; k++)         /* a row: from a number or from a sequence */
        *(double *)(a->data + i * a->str[0] + k * a->str[1]) = r_isnum(v) ? PyFloat_AsDouble(v) : PyFloat_AsDouble(PySequence_GetItem(v, k));
    return 0;
}
Py_ssize_t PyObject_Size(PyObject *o)
{
    if (Py_TYPE(o) == &PyTuple_Type || Py_TYPE(o) == &PyList_Type) return Py_SIZE(o);
    if (Py_TYPE(o) == &R_Array) return ((r_arr *)o)->dim[0];
    if (Py_TYPE(o) == &PyUnicode_Type || Py_TYPE(o) == &PyBytes_Type) return strlen(r_text(o));
    if (Py_TYPE(o) == &PyDict_Type) return ((r_dict *)o)->n;
    if (Py_TYPE(o)->tp_as_sequence && Py_TYPE(o)->tp_as_sequence->sq_length) return Py_TYPE(o)->tp_as_sequence->sq_length(o);
    r_err = PyExc_TypeError; return -1;
}
Py_ssize_t PySequence_Size(PyObject *o) { return PyObject_Size(o); }
int PySequence_Check(PyObject *o) { return 1; }
PyObject *PySequence_GetItem(PyObject *o, Py_ssize_t i)
{
    if (Py_TYPE(o) == &PyTuple_Type) { if (i < 0) i += Py_SIZE(o); return i < 0 || i >= Py_SIZE(o) ? r_raise(PyExc_IndexError) : ((PyTupleObject *)o)->ob_item[i]; }
    if (Py_TYPE(o) == &PyList_Type) { if (i < 0) i += Py_SIZE(o); return i < 0 || i >= Py_SIZE(o) ? r_raise(PyExc_IndexError) : ((PyListObject *)o)->ob_item[i]; }
    if (Py_TYPE(o) == &R_Array) return r_arr_get((r_arr *)o, i);
    if (Py_TYPE(o)->tp_as_sequence && Py_TYPE(o)->tp_as_sequence->sq_item) return Py_TYPE(o)->tp_as_sequence->sq_item(o, i);
    return r_raise(PyExc_TypeError);
}
int PySequence_SetItem(PyObject *o, Py_ssize_t i, PyObject *v)
{
    if (Py_TYPE(o) == &R_Array) return r_arr_set((r_arr *)o, i, v);
    if (Py_TYPE(o) == &PyList_Type) { if (i < 0 || i >= Py_SIZE(o)) { r_err = PyExc_IndexError; return -1; } ((PyListObject *)o)->ob_item[i] = v; return 0; }
    r_err = PyExc_TypeError; return -1;
}
PyObject *PyObject_GetItem(PyObject *o, PyObject *k)
{
    PyObject *v;
    if (o == &r_r) { Py_ssize_t i, n = PyObject_Size(k); r_arr *a = r_array(1, n, 0, 0, 8); for (i = 0; i < n; i++) ((double *)a->data)[i] = PyFloat_AsDouble(PySequence_GetItem(k, i)); return (PyObject *)a; }
    if (Py_TYPE(o) == &PyDict_Type) { v = PyDict_GetItem(o, k); return v ? v : r_raise(PyExc_KeyError); }
    if (Py_TYPE(k) == &PyLong_Type) return PySequence_GetItem(o, ((r_int *)k)->v);
    if (Py_TYPE(o) == &R_Array && Py_TYPE(k) == &PyTuple_Type) {
        for (v = o; k && v; k = NULL) { Py_ssize_t i, n = Py_SIZE(k); for (i = 0; v && i < n; i++) v = r_arr_get((r_arr *)v, PyLong_AsLong(((PyTupleObject *)k)->ob_item[i])); }
        return v;
    }
    return r_raise(PyExc_TypeError);
}
int PyObject_SetItem(PyObject *o, PyObject *k, PyObject *v)
{
    if (Py_TYPE(k) == &PyLong_Type) return PySequence_SetItem(o, ((r_int *)k)->v, v);
    if (Py_TYPE(o) == &PyDict_Type) return PyDict_SetItem(o, k, v);
    if (Py_TYPE(o) == &R_Array && Py_TYPE(k) == &PyTuple_Type) {
        Py_ssize_t i, n = Py_SIZE(k);
        for (i = 0; i + 1 < n; i++) { o = r_arr_get((r_arr *)o, PyLong_AsLong(((PyTupleObject *)k)->ob_item[i])); if (!o) return -1; }
        return r_arr_set((r_arr *)o, PyLong_AsLong(((PyTupleObject *)k)->ob_item[n - 1]), v);
    }
    r_err = PyExc_TypeError; return -1;
}
int PySequence_Contains(PyObject *o, PyObject *v)
{
    Py_ssize_t i, n = PyObject_Size(o);
    if (Py_TYPE(o) == &PyDict_Type) return PyDict_Contains(o, v);
    for (i = 0; i < n; i++) if (r_eq(PySequence_GetItem(o, i), v)) return 1;
    return 0;
}
PyObject *PySequence_Tuple(PyObject *o) { Py_ssize_t i, n = PyObject_Size(o); PyObject *t = PyTuple_New(n); for (i = 0; i < n; i++) ((PyTupleObject *)t)->ob_item[i] = PySequence_GetItem(o, i); return t; }
PyObject *PyList_AsTuple(PyObject *o) { return PySequence_Tuple(o); }
int PyList_Append(PyObject *o, PyObject *v) { PyListObject *l = (PyListObject *)o; l->ob_item = realloc(l->ob_item, 8 * (l->ob_base.ob_size + 1)); l->ob_item[l->ob_base.ob_size++] = v; return 0; }
static PyObject *r_next(PyObject *it)
{ r_iter *x = (r_iter *)it; if (x->i >= PyObject_Size(x->seq)) return NULL; return PySequence_GetItem(x->seq, x->i++); }
PyObject *PyObject_GetIter(PyObject *o) { r_iter *x = r_alloc(sizeof *x, &R_Iter); if (Py_TYPE(o) == &R_Iter) return o; x->seq = o; R_Iter.tp_iternext = r_next; return (PyObject *)x; }
PyObject *PyIter_Next(PyObject *o) { return r_next(o); }
PyObject *_PyObject_NextNotImplemented(PyObject *o) { return NULL; }
/* ---- buffers: two-dimensional arrays of double or of byte */
int PyObject_GetBuffer(PyObject *o, Py_buffer *b, int fl)
{
    r_arr *a = (r_arr *)o;
    if (Py_TYPE(o) != &R_Array) { r_err = PyExc_TypeError; return -1; }
    b->buf = a->data; b->obj = o; b->ndim = a->nd; b->shape = a->dim; b->strides = a->str; b->suboffsets = NULL; b->readonly = 0; b->internal = NULL;
    b->itemsize = r_item(a); b->format = b->itemsize == 4 ? "i" : b->itemsize == 1 ? "B" : a->descr == &r_int_ ? "l" : "d";
    return 0;
}
void PyBuffer_Release(Py_buffer *b) { b->obj = NULL; }
/* ---- types */
int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b) { return a == b; }
int PyObject_IsSubclass(PyObject *a, PyObject *b) { return a == b; }
int PyObject_IsInstance(PyObject *a, PyObject *b) { return Py_TYPE(a) == (PyTypeObject *)b; }
static PyObject *r_tp_alloc(PyTypeObject *t, Py_ssize_t n) { return r_alloc(t->tp_basicsize, t); }
int PyType_Ready(PyTypeObject *t) { ((PyObject *)t)->ob_type = &PyType_Type; t->tp_alloc = r_tp_alloc; t->tp_dict = PyDict_New(); return 0; }
void PyType_Modified(PyTypeObject *t) { }
PyObject *_PyType_Lookup(PyTypeObject *t, PyObject *n) { return strcmp(r_text(n), "__getstate__") ? NULL : (PyObject *)t; }
PyObject *PyCapsule_New(void *p, const char *n, PyCapsule_Destructor d) { return r_alloc(sizeof(PyObject), &R_Module); }
int PyObject_SetAttr(PyObject *o, PyObject *n, PyObject *v) { return 0; }
void PyObject_GC_UnTrack(void *o) { }
PyObject *PyObject_GetAttrString(PyObject *o, const char *n);
static int r_is(const char *a, const char *b) { return strcmp(a, b) == 0; }
static PyMethodDef *r_method(PyTypeObject *t, const char *n)
{ PyMethodDef *m = t->tp_methods; if (m) for (; m->ml_name; m++) if (r_is(m->ml_name, n)) return m; return NULL; }
static PyObject *r_attr(PyObject *o, const char *n)
{
    PyMethodDef *m; r_arr *a = (r_arr *)o; PyObject *t; int i;
    if (o == &r_builtins) {
        if (r_is(n, "range") || r_is(n, "xrange")) return r_func_new(F_RANGE, NULL, NULL);
        if (r_is(n, "enumerate")) return r_func_new(F_ENUM, NULL, NULL);
        if (r_is(n, "zip")) return r_func_new(F_ZIP, NULL, NULL);
#define E(x) if (r_is(n, #x)) return PyExc_##x;
        E(ValueError) E(TypeError) E(IndexError) E(IOError) E(RuntimeError) E(MemoryError) E(Exception) E(ImportError) E(KeyError)
        return r_func_new(F_STR, NULL, NULL);
    }
    if (o == &r_numpy) {
#define N(x, k) if (r_is(n, #x)) return r_func_new(k, NULL, NULL);
        N(empty, F_EMPTY) N(zeros, F_ZEROS) N(empty_like, F_EMPTY_LIKE) N(copy, F_COPY) N(full, F_FULL) N(any, F_ANY) N(ascontiguousarray, F_ASCONT) N(linspace, F_LINSPACE)
        if (r_is(n, "r_")) return &r_r;
        if (r_is(n, "float64")) return &r_float64;
        if (r_is(n, "int_")) return &r_int_;
        if (r_is(n, "nan")) return D(-1e30);                   /* a mark: not-a-number has no value in the encoding */
        if (r_is(n, "NPY_DOUBLE")) return I(NPY_DOUBLE);
        if (r_is(n, "NPY_INT")) return I(NPY_INT);
        return NULL;
    }
    if (Py_TYPE(o) == &R_Array) {
        if (r_is(n, "shape")) { t = PyTuple_New(a->nd); for (i = 0; i < a->nd; i++) ((PyTupleObject *)t)->ob_item[i] = I(a->dim[i]); return t; }
        if (r_is(n, "ndim")) return I(a->nd);
        if (r_is(n, "dtype")) return a->descr;
    }
    if (r_is(n, "encode")) return r_func_new(F_ENCODE, o, NULL);
    if (r_is(n, "__str__") || r_is(n, "format") || r_is(n, "replace")) return r_func_new(F_STR, o, NULL);
    if (r_is(n, "keys")) return r_func_new(F_KEYS, o, NULL);
    if (r_is(n, "__reduce_ex__")) return o;
    if (Py_TYPE(o) != &PyType_Type && (m = r_method(Py_TYPE(o), n))) return r_func_new(F_METH, o, m);
    return NULL;
}
PyObject *PyObject_GetAttrString(PyObject *o, const char *n) { PyObject *r = r_attr(o, n); return r ? r : r_raise(PyExc_AttributeError); }
PyObject *PyObject_GetAttr(PyObject *o, PyObject *n) { return PyObject_GetAttrString(o, r_text(n)); }
PyObject *_PyDict_GetItem_KnownHash(PyObject *d, PyObject *k, Py_hash_t h) { return PyDict_GetItem(d, k); }
/* ---- calls */
static PyObject *r_like(r_arr *a, int copy)
{
    r_arr *r = r_array(a->nd, a->dim[0], a->nd > 1 ? a->dim[1] : 0, a->nd > 2 ? a->dim[2] : 0, r_item(a)); Py_ssize_t i, j, k; int w = r_item(a);
    r->descr = a->descr;
    if (copy) for (i = 0; i < a->dim[0]; i++) for (j = 0; j < (a->nd > 1 ? a->dim[1] : 1); j++) for (k = 0; k < (a->nd > 2 ? a->dim[2] : 1); k++)
        memcpy(r->data + i * r->str[0] + j * r->str[1] + k * r->str[2], a->data + i * a->str[0] + (a->nd > 1 ? j * a->str[1] : 0) + (a->nd > 2 ? k * a->str[2] : 0), w);
    return (PyObject *)r;
}
static PyObject *r_shape_array(PyObject *s, double fill, PyObject *dtype)
{
    Py_ssize_t d[3] = { 0, 0, 0 }, i, n = 1; int nd; r_arr *r;
    if (Py_TYPE(s) == &PyTuple_Type) { nd = Py_SIZE(s); for (i = 0; i < nd; i++) d[i] = PyLong_AsLong(((PyTupleObject *)s)->ob_item[i]); }
    else { nd = 1; d[0] = PyLong_AsLong(s); }
    r = r_array(nd, d[0], d[1], d[2], 8);
    if (dtype == &r_int_) r->descr = &r_int_;
    for (i = 0; i < nd; i++) n *= d[i];
    if (fill > -1e99) for (i = 0; i < n; i++) if (dtype == &r_int_) ((long *)r->data)[i] = (long)fill; else ((double *)r->data)[i] = fill;
    return (PyObject *)r;
}
static PyObject *r_new(PyTypeObject *t, PyObject *args, PyObject *kw)
{
    PyObject *o;
    if (t->tp_flags & Py_TPFLAGS_BASE_EXC_SUBCLASS) return r_alloc(sizeof(PyBaseExceptionObject), t);
    o = t->tp_new(t, args, kw);
    if (!o || (t->tp_init && t->tp_init(o, args, kw) < 0)) return NULL;
    return o;
}
static PyObject *r_args(PyMethodDef *m, PyObject *self, PyObject *args, PyObject *kw)
{
    int f = m->ml_flags & (METH_NOARGS | METH_O | METH_VARARGS | METH_KEYWORDS | METH_FASTCALL);
    if (f == METH_NOARGS) return m->ml_meth(self, NULL);
    if (f == METH_O) return m->ml_meth(self, ((PyTupleObject *)args)->ob_item[0]);
    return ((PyCFunctionWithKeywords)(void *)m->ml_meth)(self, args, kw);
}
PyObject *PyObject_Call(PyObject *f, PyObject *args, PyObject *kw)
{
    r_func *x = (r_func *)f; PyObject **a = ((PyTupleObject *)args)->ob_item, *v; Py_ssize_t i, n = Py_SIZE(args);
    if (Py_TYPE(f) == &PyType_Type || f == (PyObject *)&PyUnicode_Type) return f == (PyObject *)&PyUnicode_Type ? S("?") : r_new((PyTypeObject *)f, args, kw);
    if (Py_TYPE(f) != &R_Func) { if (((PyTypeObject *)f)->tp_flags & Py_TPFLAGS_BASE_EXC_SUBCLASS) return r_new((PyTypeObject *)f, args, kw); return r_raise(PyExc_TypeError); }
    switch (x->kind) {
    case F_METH: return r_args(x->m, x->self, args, kw);
    case F_EMPTY: case F_ZEROS:
        v = n ? a[0] : PyDict_GetItem(kw, S("shape"));
        return r_shape_array(v, x->kind == F_ZEROS ? 0 : -1e100, kw ? PyDict_GetItem(kw, S("dtype")) : NULL);
    case F_FULL: return r_shape_array(a[0], PyFloat_AsDouble(a[1]), kw ? PyDict_GetItem(kw, S("dtype")) : NULL);
    case F_EMPTY_LIKE: return r_like((r_arr *)a[0], 0);
    case F_COPY: return r_like((r_arr *)a[0], 1);
    case F_ASCONT: v = a[0];        /* the array itself when it is contiguous */
        { r_arr *q = (r_arr *)v; Py_ssize_t w = r_item(q); int c = 1, k; for (k = q->nd - 1; k >= 0; k--) { if (q->str[k] != w && q->dim[k] != 1) c = 0; w *= q->dim[k]; } return c ? v : r_like(q, 1); }
    case F_ANY: return PyObject_IsTrue(a[0]) ? Py_True : Py_False;
    case F_LINSPACE: { double lo = PyFloat_AsDouble(a[0]), hi = PyFloat_AsDouble(a[1]); n = PyLong_AsLong(a[2]);
        v = r_shape_array(I(n), -1e100, NULL); for (i = 0; i < n; i++) ((double *)((r_arr *)v)->data)[i] = n == 1 ? lo : lo + (hi - lo) * i / (n - 1); return v; }
    case F_ENCODE: return B(r_text(n ? a[0] : x->self));
    case F_KEYS: { r_dict *d = (r_dict *)(n ? a[0] : x->self); v = PyTuple_New(d->n); for (i = 0; i < d->n; i++) ((PyTupleObject *)v)->ob_item[i] = d->e[i].k; return v; }
    case F_RANGE: { long lo = n > 1 ? PyLong_AsLong(a[0]) : 0, hi = PyLong_AsLong(a[n > 1]); v = PyTuple_New(hi > lo ? hi - lo : 0); for (i = lo; i < hi; i++) ((PyTupleObject *)v)->ob_item[i - lo] = I(i); return v; }
    case F_ENUM: { Py_ssize_t c = PyObject_Size(a[0]); v = PyTuple_New(c); for (i = 0; i < c; i++) ((PyTupleObject *)v)->ob_item[i] = T2(I(i), PySequence_GetItem(a[0], i)); return v; }
    case F_ZIP: { Py_ssize_t c = n ? PyObject_Size(a[0]) : 0, j; v = PyTuple_New(c); for (i = 0; i < c; i++) { PyObject *t = PyTuple_New(n); for (j = 0; j < n; j++) ((PyTupleObject *)t)->ob_item[j] = PySequence_GetItem(a[j], i); ((PyTupleObject *)v)->ob_item[i] = t; } return v; }
    case F_STR: return S("?");
    }
    return r_raise(PyExc_TypeError);
}
PyObject *PyObject_CallObject(PyObject *f, PyObject *args) { return PyObject_Call(f, args ? args : PyTuple_New(0), NULL); }
PyObject *PyObject_Str(PyObject *o) { return S("?"); }
PyObject *PyObject_Format(PyObject *o, PyObject *f) { return S("?"); }
/* ---- numpy C interface: arrays around given memory */
static PyObject *r_from_data(PyTypeObject *t, int nd, const npy_intp *dim, int num, const npy_intp *str, void *data, int item, int fl, PyObject *o)
{ r_arr *a = r_array(1, dim[0], 0, 0, num == NPY_INT ? 4 : 8); a->data = data; return (PyObject *)a; }
static void *r_np_api[400];
/* ---- the harness' side */
static PyObject *CALL(PyObject *o, const char *name, PyObject *args, PyObject *kw)
{
    PyMethodDef *m = r_method(Py_TYPE(o), name);
    vp_assert(m != NULL, "the method exists");
    if (!m) return NULL;
    return r_args(m, o, args, kw);
}
#define NOARGS PyTuple_New(0)
static PyObject *GET(PyObject *o, const char *name) { return CALL(o, name, NOARGS, NULL); }
static PyObject *SET(PyObject *o, const char *name, PyObject *v) { return CALL(o, name, T1(v), NULL); }
static double NUM(PyObject *o) { return o ? r_num(o) : -1e300; }
static double ITEM(PyObject *o, int i) { PyObject *x = o ? PySequence_GetItem(o, i) : NULL; return x ? r_num(x) : -1e300; }
static int RAISED(PyObject *e) { int r = r_err == e; r_err = NULL; return r; }
/* brings the module up to where its classes exist */
static int module_up(void)
{
    __pyx_d = PyDict_New(); __pyx_b = &r_builtins; __pyx_m = &r_builtins; __pyx_cython_runtime = &r_builtins;
    __pyx_empty_tuple = PyTuple_New(0); __pyx_empty_bytes = B(""); __pyx_empty_unicode = S("");
    r_np_api[93] = (void *)r_from_data; r_np_api[2] = &R_Array;
    PyDict_SetItemString(__pyx_d, "numpy", &r_numpy); PyDict_SetItemString(__pyx_d, "np", &r_numpy);
    if (__Pyx_InitGlobals() < 0) return 0;
    if (__Pyx_InitCachedBuiltins() < 0) return 0;
    if (__Pyx_InitCachedConstants() < 0) return 0;
    return __Pyx_modinit_type_init_code() >= 0 && !r_err;
}
