/* Counts instruction events of the library and wakes the scheduler.

   One event costs a call of this object; Python code runs only when the
   counter reaches `alarm` or when the instruction is in the watch table. */

#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <structmember.h>

typedef struct {
    PyObject *code;
    const unsigned char *map;
    Py_ssize_t len;
} Entry;

typedef struct {
    PyObject_HEAD
    vectorcallfunc vc;
    long long n, alarm;
    PyObject *on_alarm, *on_watch, *keep;
    Entry *tab;
    size_t mask;
    PyObject *last;
    Entry *hit;
} Stepper;

static Entry *find(Stepper *s, PyObject *code)
{
    size_t i = ((size_t)code >> 4) * 0x9E3779B97F4A7C15ULL >> 20;
    for (;; i++) {
        Entry *e = &s->tab[i & s->mask];
        if (e->code == NULL || e->code == code)
            return e;
    }
}

static PyObject *call(PyObject *self, PyObject *const *args, size_t nf,
                      PyObject *kw)
{
    Stepper *s = (Stepper *)self;
    PyObject *f = NULL;
    s->n++;
    if (s->n >= s->alarm)
        f = s->on_alarm;
    else if (s->tab != NULL) {
        if (s->last != args[0]) {
            s->last = args[0];
            s->hit = find(s, args[0]);
        }
        if (s->hit->code != NULL) {
            Py_ssize_t off = PyLong_AsSsize_t(args[1]) / 2;
            if (off >= 0 && off < s->hit->len && s->hit->map[off])
                f = s->on_watch;
        }
    }
    if (f == NULL)
        Py_RETURN_NONE;
    Py_INCREF(f);
    PyObject *r = PyObject_Vectorcall(f, args, nf, kw);
    Py_DECREF(f);
    return r;
}

static PyObject *watch(PyObject *self, PyObject *arg)
{
    /* list of (code, bytes): nonzero bytes mark watched instructions */
    Stepper *s = (Stepper *)self;
    Py_ssize_t n = PyList_Size(arg);
    if (n < 0)
        return NULL;
    size_t size = 16;
    while (size < (size_t)n * 4)
        size *= 2;
    PyMem_Free(s->tab);
    s->tab = PyMem_Calloc(size, sizeof(Entry));
    if (s->tab == NULL)
        return PyErr_NoMemory();
    s->mask = size - 1;
    s->last = NULL;
    for (Py_ssize_t i = 0; i < n; i++) {
        PyObject *code;
        const char *b;
        Py_ssize_t len;
        if (!PyArg_ParseTuple(PyList_GetItem(arg, i), "Oy#", &code, &b, &len))
            return NULL;
        Entry *e = find(s, code);
        e->code = code;
        e->map = (const unsigned char *)b;
        e->len = len;
    }
    Py_INCREF(arg);
    Py_XSETREF(s->keep, arg);
    Py_RETURN_NONE;
}

static int init(PyObject *self, PyObject *args, PyObject *kw)
{
    Stepper *s = (Stepper *)self;
    if (!PyArg_ParseTuple(args, "OO", &s->on_alarm, &s->on_watch))
        return -1;
    Py_INCREF(s->on_alarm);
    Py_INCREF(s->on_watch);
    s->vc = call;
    s->alarm = 1LL << 62;
    return 0;
}

static void dealloc(PyObject *self)
{
    Stepper *s = (Stepper *)self;
    Py_XDECREF(s->on_alarm);
    Py_XDECREF(s->on_watch);
    Py_XDECREF(s->keep);
    PyMem_Free(s->tab);
    Py_TYPE(self)->tp_free(self);
}

static PyMemberDef members[] = {
    {"n", T_LONGLONG, offsetof(Stepper, n), 0, NULL},
    {"alarm", T_LONGLONG, offsetof(Stepper, alarm), 0, NULL},
    {NULL}};

static PyMethodDef methods[] = {
    {"watch", watch, METH_O, NULL}, {NULL}};

static PyTypeObject StepperType = {
    PyVarObject_HEAD_INIT(NULL, 0)
    .tp_name = "stepper.Stepper",
    .tp_basicsize = sizeof(Stepper),
    .tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_VECTORCALL,
    .tp_vectorcall_offset = offsetof(Stepper, vc),
    .tp_call = PyVectorcall_Call,
    .tp_new = PyType_GenericNew,
    .tp_init = init,
    .tp_dealloc = dealloc,
    .tp_members = members,
    .tp_methods = methods,
};

static struct PyModuleDef module = {
    PyModuleDef_HEAD_INIT, "stepper", NULL, -1, NULL};

PyMODINIT_FUNC PyInit_stepper(void)
{
    if (PyType_Ready(&StepperType) < 0)
        return NULL;
    PyObject *m = PyModule_Create(&module);
    if (m == NULL)
        return NULL;
    Py_INCREF(&StepperType);
    PyModule_AddObject(m, "Stepper", (PyObject *)&StepperType);
    return m;
}
