/* Memory handler for NumPy arrays that fills new memory with a pattern, so
   that the use of uninitialised memory becomes visible, and that gives each
   array its own block of memory without caches. */
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <Python.h>
#include <stdlib.h>
#include <string.h>
#include <numpy/arrayobject.h>

static unsigned long n_blocks = 0;
static int pattern = 0xff;

static void *p_malloc(void *ctx, size_t size)
{
    void *p = malloc(size);
    if (p != NULL)
        memset(p, pattern, size);
    n_blocks++;
    return p;
}

static void *p_calloc(void *ctx, size_t n, size_t size)
{
    n_blocks++;
    return calloc(n, size);
}

static void *p_realloc(void *ctx, void *p, size_t size)
{
    return realloc(p, size);
}

static void p_free(void *ctx, void *p, size_t size)
{
    free(p);
}

static PyDataMem_Handler handler = {
    "mpv_poison", 1, {NULL, p_malloc, p_calloc, p_realloc, p_free}};

static PyObject *install(PyObject *self, PyObject *args)
{
    PyObject *capsule, *old;
    if (!PyArg_ParseTuple(args, "i", &pattern))
        return NULL;
    capsule = PyCapsule_New(&handler, "mem_handler", NULL);
    if (capsule == NULL)
        return NULL;
    old = PyDataMem_SetHandler(capsule);
    Py_DECREF(capsule);
    if (old == NULL)
        return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}

static PyObject *blocks(PyObject *self, PyObject *args)
{
    return PyLong_FromUnsignedLong(n_blocks);
}

static PyMethodDef methods[] = {
    {"install", install, METH_VARARGS, "Fill new arrays with this byte."},
    {"blocks", blocks, METH_NOARGS, "Number of blocks that were handed out."},
    {NULL, NULL, 0, NULL}};

static struct PyModuleDef module = {
    PyModuleDef_HEAD_INIT, "mpv_poison", NULL, -1, methods};

PyMODINIT_FUNC PyInit_mpv_poison(void)
{
    import_array();
    return PyModule_Create(&module);
}
