/* settings for the generated C: no reaching into the interpreter's structures where the interface will do */
#define CYTHON_USE_TYPE_SLOTS 0
#define CYTHON_USE_PYLONG_INTERNALS 0
#define CYTHON_ASSUME_SAFE_MACROS 1
#define CYTHON_USE_UNICODE_INTERNALS 0
#define CYTHON_USE_PYLIST_INTERNALS 0
#define CYTHON_USE_UNICODE_WRITER 0
#define CYTHON_UNPACK_METHODS 0
#define CYTHON_FAST_THREAD_STATE 0
#define CYTHON_FAST_PYCALL 0
#define CYTHON_FAST_PYCCALL 0
#define CYTHON_USE_DICT_VERSIONS 0
#define CYTHON_USE_EXC_INFO_STACK 0
#define CYTHON_USE_TP_FINALIZE 0
#define CYTHON_PEP489_MULTI_PHASE_INIT 0
#define CYTHON_REFNANNY 0
#define CYTHON_UPDATE_DESCRIPTOR_DOC 0
#define NDEBUG
#include <Python.h>
#undef PyMODINIT_FUNC
#define PyMODINIT_FUNC static PyObject *
static PyObject *r_pack(Py_ssize_t n, PyObject **v);
#define PyTuple_Pack(n, ...) r_pack(n, (PyObject *[]){ __VA_ARGS__ })
