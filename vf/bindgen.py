"""Stand-ins vb_X for every call xrtm_X of the C interface that go through a binding: the driver of the
C interface, compiled with its calls renamed, then drives C++, Fortran 77 or Fortran 90 instead."""
import os, re
from .build import VERIF
H = os.path.join(VERIF, 'harness')
CT = dict(int='int', double='double')

class Arg:
    def __init__(s, t, rank, dims, name, dir):
        s.t, s.rank, s.dims, s.name, s.dir = t, rank, dims, name, dir
        s.ctype = {'kernel_type': 'enum xrtm_kernel_type', 'solver_mask': 'enum xrtm_solver_mask', 'method_type': 'enum xrtm_fd_method_type', 'xrtm_data': 'xrtm_data'}.get(t, t)
class Fn:
    def __init__(s, kind, ret, name, val, args): s.kind, s.ret, s.name, s.val, s.args = kind, ret, name, val, args

def table(fd=False):
    r = []
    for l in open(os.path.join(H, 'bindings_fd.def' if fd else 'bindings.def')):
        m = re.match(r'subprogram_(\w+)\s+(?:enum\s+)?(\w+)\s+\d+\s+(\w+)\s+(\d)(.*);', l)
        if not m: continue
        kind, ret, name, val, rest = m.groups()
        args = []
        for a in [x.strip() for x in re.split(r',(?=(?:[^"]*"[^"]*")*[^"]*$)', rest)][1:]:
            q = re.findall(r'"[^"]*"|\S+', a)
            if q[0] == 'enum': q = q[1:]
            rank = int(q[1]); dims = [d.strip('"') for d in q[2:2 + rank]]
            args.append(Arg(q[0], rank, dims, q[2 + rank], 'out' if q[3 + rank] == 'out' else 'in'))
        r.append(Fn(kind, ret, name, val == '1', args))
    return r

def dim(d, fd, lens):
    b = 'd->d' if fd else 'd'
    d = re.sub(r'kernel_n_params\(.*?d->kernels\[i_kernel\]\)', 'VB_KP(%s, i_kernel)' % b, d)
    d = re.sub(r'd->(d->)?n_coef_layer\[i_layer\]', 'VB_NC(%s, i_layer)' % b, d)
    return d
def cparams(f, fd):
    me = 'xrtm_fd_data *d' if fd else 'xrtm_data *d'
    p = [me]
    for a in f.args:
        stars = '*' * (a.rank if a.t != 'xrtm_data' else 1)
        if a.rank == 0 and a.dir == 'out': stars = '*'
        p.append('%s %s%s' % (a.ctype, stars, a.name))
    return ', '.join(p)
def ret(f): return 'double' if f.ret == 'double' else 'enum xrtm_kernel_type' if f.ret == 'kernel_type' else 'int'

HEAD = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <float.h>
#include <stdint.h>
#include <xrtm.h>
#include <xrtm_interface.h>
#include <xrtm_fd_interface.h>
#define VB_NC(b, i) ((i) >= 0 && (i) < (b)->n_layers ? (b)->n_coef_layer[i] : 0)
#define VB_KP(b, i) ((i) >= 0 && (i) < (b)->n_kernels ? kernel_n_params((b)->kernels[i]) : 0)
/* pointer tables <-> contiguous memory; a table of coefficients has rows as long as its layers need */
static void vb_walk(void *p, int rank, long *n, long *rag, long row, double *f, int back) {
     long i;
     if (rank == 1) { long m = rag ? row : n[0]; double *v = (double *) p; for (i = 0; i < m; i++) { if (back) v[i] = f[i]; else f[i] = v[i]; } return; }
     else { long k, s = 1; for (k = 1; k < rank; k++) s *= n[k];
          for (i = 0; i < n[0]; i++) vb_walk(((void **) p)[i], rank - 1, n + 1, rag, rag && row < 0 ? rag[i] : row, f + i * s, back); }
}
static double *vb_flat(void *p, int rank, long *n, long *rag, long row) {
     long k, s = 1; double *f; for (k = 0; k < rank; k++) { if (n[k] < 0) n[k] = 0; s *= n[k]; }
     f = (double *) malloc((s + 1) * sizeof(double)); for (k = 0; k <= s; k++) f[k] = 9e99;
     if (s) vb_walk(p, rank, n, rag, row, f, 0);
     return f;
}
static void vb_back(void *p, int rank, long *n, double *f) { long k, s = 1; for (k = 0; k < rank; k++) s *= n[k]; if (s) vb_walk(p, rank, n, NULL, -1, f, 1); free(f); }
'''
def lower(n): return n.lower()
def fortran(f, fd, lang):
    """call through a Fortran binding"""
    pre = 'xrtm_fd_' if fd else 'xrtm_'
    call = ('%s%s_f77_' % (pre, lower(f.name))) if lang == 'f77' else 'w_%s%s' % (pre, lower(f.name))
    b = 'd->d' if fd else 'd'
    o = ['%s vb_%s%s(%s) {' % (ret(f), 'fd_' if fd else '', f.name, cparams(f, fd))]
    post, actual, proto = [], ['d'], ['void *']
    lens = [a for a in f.args if a.name == 'n_coef_layer' and a.rank == 1]
    for a in f.args:
        if a.t == 'xrtm_data': actual.append(a.name); proto.append('void *')
        elif a.rank == 0 and a.dir == 'out': actual.append(a.name); proto.append('%s *' % CT[a.t])
        elif a.rank == 0:
            t = 'double' if a.t == 'double' else 'int'
            o.append('     %s %s_ = (%s) %s;' % (t, a.name, t, a.name)); actual.append('&%s_' % a.name); proto.append('%s *' % t)
        elif a.rank == 1:
            if a.t == 'kernel_type': o.append('     int kx_[64], ki_; for (ki_ = 0; ki_ < n_kernels && ki_ < 64; ki_++) kx_[ki_] = kernels[ki_];'); actual.append('kx_'); proto.append('int *')
            else: actual.append(a.name); proto.append('%s *' % a.t)
            if lang == 'f90':
                o.append('     long N_%s[1] = {%s};' % (a.name, 'n_kernels' if a.t == 'kernel_type' else dim(a.dims[0], fd, lens))); actual.append('N_' + a.name); proto.append('long *')
        else:
            dims = [dim(x, fd, lens) for x in a.dims]
            rag, row = 'NULL', '-1'
            if a.dims[-1].endswith('n_coef'):
                o.append('     long lr_[1024], li_; for (li_ = 0; li_ < %s->n_layers && li_ < 1024; li_++) lr_[li_] = %s;' % (b, 'n_coef_layer[li_] < 0 ? 0 : n_coef_layer[li_]' if lens else 'VB_NC(%s, li_)' % b))
                rag = 'lr_'
            o.append('     long N_%s[%d] = {%s}; double *F_%s = vb_flat(%s, %d, N_%s, %s, %s);' % (a.name, a.rank, ', '.join(dims), a.name, a.name, a.rank, a.name, rag, row))
            actual.append('F_' + a.name); proto.append('double *')
            if lang == 'f90': actual.append('N_' + a.name); proto.append('long *')
            post.append('     vb_back(%s, %d, N_%s, F_%s);' % (a.name, a.rank, a.name, a.name) if a.dir == 'out' else '     free(F_%s);' % a.name)
    if f.val:
        t = 'double' if f.ret == 'double' else 'int'
        o.insert(0, 'extern %s %s(%s);' % (t, call, ', '.join(proto)))
        o.append('     %s r_ = %s(%s);' % (t, call, ', '.join(actual)))
        o += post + ['     return (%s) r_;' % ret(f), '}']
    else:
        o.insert(0, 'extern void %s(%s, int *);' % (call, ', '.join(proto)))
        o.append('     int e_ = 12345; %s(%s, &e_);' % (call, ', '.join(actual)))
        o += post + ['     return e_ == 0 ? 0 : e_ == -1 || e_ == XRTM_INT_ERROR ? XRTM_INT_ERROR : 7000 + (e_ & 0xff);', '}']
    return '\n'.join(o)

def cpp(f, fd):
    cls = 'xrtm_fd_int_cpp' if fd else 'xrtm_int_cpp'
    o = ['extern "C" %s vb_%s%s(%s) {' % (ret(f), 'fd_' if fd else '', f.name, cparams(f, fd))]
    act = []
    for a in f.args:
        if a.t == 'solver_mask': act.append('(xrtm_int_cpp::solver_mask) ' + a.name)
        elif a.t == 'method_type': act.append('(xrtm_fd_int_cpp::method_type) ' + a.name)
        elif a.t == 'kernel_type': act.append('(xrtm_int_cpp::kernel_type *) ' + a.name)
        elif a.rank == 0 and a.dir == 'out': act.append('@' + a.name)
        else: act.append(a.name)
    err = 'XRTM_DBL_ERROR' if f.ret == 'double' else '(%s) XRTM_INT_ERROR' % ret(f)
    A = ', '.join(act).replace('@', '*' if CPP_REF else '')
    if f.kind == 'init': body = 'new ((void *) d) %s(%s); return 0;' % (cls, A)
    elif f.kind == 'free': body = '((%s *) d)->~%s(); return 0;' % (cls, cls)
    elif f.val: body = 'return (%s) ((%s *) d)->%s(%s);' % (ret(f), cls, f.name, A)
    else: body = '((%s *) d)->%s(%s); return 0;' % (cls, f.name, A)
    o.append('     try { %s } catch (%s::xrtm%s_errors e) { return %s; }' % (body, cls, '_fd' if fd else '', err))
    o.append('}')
    return '\n'.join(o)
CPP_REF = False

def f90mod(fns, fd):
    """bind(C) wrappers around the module procedures: arrays of the ranks and reversed shapes a Fortran program has"""
    pre = 'xrtm_fd_' if fd else 'xrtm_'
    o = ['module vb_%sf90' % pre, 'use iso_c_binding', 'use xrtm_int_f90'] + (['use xrtm_fd_int_f90'] if fd else []) + ['contains']
    for f in fns:
        me = 'type(%stype)' % pre
        dl, dm, act = [], ['d'], ['d']
        dl.append('%s :: d' % me)
        for a in f.args:
            dm.append(a.name); t = 'real(c_double)' if a.t == 'double' else 'integer(c_int)'
            if a.t == 'xrtm_data': dl.append('type(xrtm_type) :: ' + a.name)
            elif a.rank == 0: dl.append('%s :: %s' % (t, a.name))
            else:
                dm.append('z_' + a.name); dl.append('integer(c_long) :: z_%s(%d)' % (a.name, a.rank))
                dl.append('%s :: %s(%s)' % (t, a.name, ', '.join('z_%s(%d)' % (a.name, k) for k in range(a.rank, 0, -1))))
            act.append(a.name)
        w = 'w_%s%s' % (pre, f.name.lower())
        wrap = lambda s: re.sub(r'(.{1,90}(?:,|$))', r'\1&\n', s).rstrip('&\n')
        if f.val: o.append('%s function %s(%s) bind(c, name="%s")' % ('real(c_double)' if f.ret == 'double' else 'integer(c_int)', w, wrap(', '.join(dm)), w))
        else: o.append('subroutine %s(%s, error) bind(c, name="%s")' % (w, wrap(', '.join(dm)), w)); dl.append('integer(c_int) :: error')
        o += ['implicit none'] + dl
        if f.val: o += ['%s = %s%s_f90(%s)' % (w, pre, f.name, wrap(', '.join(act))), 'end function']
        else: o += ['call %s%s_f90(%s, error)' % (pre, f.name, wrap(', '.join(act))), 'end subroutine']
    return '\n'.join(o + ['end module', ''])

PYHEAD = r"""
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
#define VB_MAX 64
static struct { xrtm_data *d; PyObject *o; } vb_tab[VB_MAX];
static PyObject *vb_mod;
static int vb_init(void) {
     PyObject *p;
     if (vb_mod) return 0;
     Py_InitializeEx(0);
     if (_import_array() < 0) { PyErr_Print(); return -1; }
     p = PyUnicode_FromString(VB_PATH); PyList_Insert(PySys_GetObject("path"), 0, p); Py_DECREF(p);
     vb_mod = PyImport_ImportModule("xrtm");
     if (! vb_mod) { PyErr_Print(); return -1; }
     return 0;
}
static PyObject *vb_obj(xrtm_data *d) { int i; for (i = 0; i < VB_MAX; i++) if (vb_tab[i].o && vb_tab[i].d == d) return vb_tab[i].o; fprintf(stderr, "no instance\n"); abort(); }
xrtm_data *vb_real(xrtm_data *d) { return (xrtm_data *) ((char *) vb_obj(d) + sizeof(PyObject)); }
static void vb_error(void) {
     PyObject *t, *v, *b, *s; PyErr_Fetch(&t, &v, &b); s = v ? PyObject_Str(v) : NULL;
     fprintf(stderr, "%s\n", s ? PyUnicode_AsUTF8(s) : "exception without a value"); Py_XDECREF(s); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
}
static PyObject *vb_in(int rank, long *n, int type, const void *v) {
     npy_intp z[8]; int k; long s = 1; PyObject *a;
     for (k = 0; k < rank; k++) { z[k] = n[k] < 0 ? 0 : n[k]; s *= z[k]; }
     a = PyArray_SimpleNew(rank, z, type); memcpy(PyArray_DATA((PyArrayObject *) a), v, s * (type == NPY_DOUBLE ? sizeof(double) : sizeof(int))); return a;
}
/* a returned array: same shape and kind, or not what the C interface gives */
static int vb_out(PyObject *o, int rank, long *n, int type, void *v) {
     int k; long s = 1; PyArrayObject *a;
     if (! o || ! PyArray_Check(o)) return 1;
     a = (PyArrayObject *) PyArray_FROM_OTF(o, type, NPY_ARRAY_C_CONTIGUOUS); if (! a) { PyErr_Clear(); return 1; }
     if (PyArray_NDIM(a) != rank) { Py_DECREF(a); return 1; }
     for (k = 0; k < rank; k++) { if (PyArray_DIM(a, k) != n[k]) { Py_DECREF(a); return 1; } s *= n[k]; }
     memcpy(v, PyArray_DATA(a), s * (type == NPY_DOUBLE ? sizeof(double) : sizeof(int))); Py_DECREF(a); return 0;
}
int vb_create(xrtm_data *d, int options, int solvers, int max_coef, int n_quad, int n_stokes, int n_derivs, int n_layers, int n_theta_0s, int n_kernels, int n_kernel_quad, enum xrtm_kernel_type *kernels, int n_out_levels, int n_out_thetas) {
     PyObject *ol, *sl, *kl, *c, *o; int i; const char *z;
     if (vb_init()) abort();
     ol = PyList_New(0); sl = PyList_New(0); kl = PyList_New(0);
     for (i = 0; i < 32; i++) if (options & (1u << i)) { z = xrtm_option_mask_to_name(1u << i); if (! z) return XRTM_INT_ERROR; PyList_Append(ol, PyUnicode_FromString(z)); }
     for (i = 0; i < 32; i++) if (solvers & (1u << i)) { z = xrtm_solver_mask_to_name(1u << i); if (! z) return XRTM_INT_ERROR; PyList_Append(sl, PyUnicode_FromString(z)); }
     for (i = 0; i < n_kernels; i++) { z = xrtm_kernel_value_to_name(kernels[i]); if (! z) return XRTM_INT_ERROR; PyList_Append(kl, PyUnicode_FromString(z)); }
     c = PyObject_GetAttrString(vb_mod, "xrtm");
     o = PyObject_CallFunction(c, "OOiiiiiiiOii", ol, sl, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernel_quad, kl, n_out_levels, n_out_thetas);
     Py_DECREF(c);
     if (! o) { vb_error(); return XRTM_INT_ERROR; }
     for (i = 0; i < VB_MAX && vb_tab[i].o; i++) ;
     vb_tab[i].o = o; vb_tab[i].d = d;
     return 0;
}
int vb_destroy(xrtm_data *d) { int i; PyObject *o = vb_obj(d); for (i = 0; i < VB_MAX; i++) if (vb_tab[i].o == o) vb_tab[i].o = NULL; Py_DECREF(o); return 0; }
xrtm_data *vb_create2(int options, int solvers, int max_coef, int n_quad, int n_stokes, int n_derivs, int n_layers, int n_theta_0s, int n_kernels, int n_kernel_quad, enum xrtm_kernel_type *kernels, int n_out_levels, int n_out_thetas) {
     xrtm_data *d = (xrtm_data *) malloc(sizeof(xrtm_data));
     if (vb_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, kernels, n_out_levels, n_out_thetas)) { free(d); return NULL; }
     return d;
}
int vb_destroy2(xrtm_data *d) { vb_destroy(d); free(d); return 0; }
"""
PYREN = """extern xrtm_data *vb_real(xrtm_data *);
#define xrtm_get_n_elem(d) (xrtm_get_n_elem)(vb_real(d))
#define xrtm_clear_saved(d) (xrtm_clear_saved)(vb_real(d))
#define xrtm_set_kernel_func(d, ...) (xrtm_set_kernel_func)(vb_real(d), __VA_ARGS__)
#define xrtm_radiance_2(d, ...) (xrtm_radiance_2)(vb_real(d), __VA_ARGS__)
#define xrtm_local_r_t_u_w(d, ...) (xrtm_local_r_t_u_w)(vb_real(d), __VA_ARGS__)
"""
def py(f):
    """call a method of the Python class"""
    if f.kind in ('init', 'free'): return ''
    o = ['%s vb_%s(%s) {' % (ret(f), f.name, cparams(f, False).replace('xrtm_data *d', 'xrtm_data *d_', 1)), '     xrtm_data *d = vb_real(d_); PyObject *r, *x, *t; int bad = 0, nin = 0;']
    ins = [a for a in f.args if a.dir == 'in']; outs = [a for a in f.args if a.dir == 'out']
    lens = [a for a in f.args if a.name == 'n_coef_layer' and a.rank == 1]
    err = 'XRTM_DBL_ERROR' if f.ret == 'double' else '(%s) XRTM_INT_ERROR' % ret(f)
    if any(a.t == 'solver_mask' for a in ins): o.append('     const char *sn_ = xrtm_solver_mask_to_name(solver); if (! sn_) { fprintf(stderr, "no name\\n"); return %s; }' % err)
    o.append('     t = PyTuple_New(%d);' % len(ins))
    for k, a in enumerate(ins):
        if a.t == 'solver_mask': v = 'PyUnicode_FromString(sn_)'
        elif a.rank == 0: v = 'PyFloat_FromDouble(%s)' % a.name if a.t == 'double' else 'PyLong_FromLong(%s)' % a.name
        else:
            dims = [dim(x, False, lens) for x in a.dims]
            o.append('     long N_%s[%d] = {%s};' % (a.name, a.rank, ', '.join(dims)))
            if a.rank == 1: v = 'vb_in(1, N_%s, %s, %s)' % (a.name, 'NPY_DOUBLE' if a.t == 'double' else 'NPY_INT', a.name)
            else:
                rag = 'NULL'
                if a.dims[-1].endswith('n_coef'):
                    o.append('     long lr_[1024], li_; for (li_ = 0; li_ < d->n_layers && li_ < 1024; li_++) lr_[li_] = %s;' % ('n_coef_layer[li_] < 0 ? 0 : n_coef_layer[li_]' if lens else 'VB_NC(d, li_)'))
                    rag = 'lr_'
                o.append('     double *F_%s = vb_flat(%s, %d, N_%s, %s, -1);' % (a.name, a.name, a.rank, a.name, rag))
                v = 'vb_in(%d, N_%s, NPY_DOUBLE, F_%s)' % (a.rank, a.name, a.name)
        o.append('     PyTuple_SetItem(t, %d, %s);' % (k, v))
        if a.rank > 1: o.append('     free(F_%s);' % a.name)
    o.append('     x = PyObject_GetAttrString(vb_obj(d_), "%s"); if (! x) { vb_error(); abort(); }' % f.name)
    o.append('     r = PyObject_CallObject(x, t); Py_DECREF(x); Py_DECREF(t); if (! r) { vb_error(); return %s; }' % err)
    if f.val:
        if f.ret == 'kernel_type': o.append('     { const char *z = PyUnicode_Check(r) ? PyUnicode_AsUTF8(r) : "?"; int k = xrtm_kernel_name_to_value(z); Py_DECREF(r); return (enum xrtm_kernel_type) k; }')
        elif f.ret == 'double': o.append('     { double v = PyFloat_AsDouble(r); if (PyErr_Occurred()) { PyErr_Clear(); v = 7e77; } Py_DECREF(r); return v; }')
        else: o.append('     { long v = PyLong_AsLong(r); if (PyErr_Occurred()) { PyErr_Clear(); v = 7777777; } Py_DECREF(r); return (int) v; }')
    else:
        if len(outs) > 1: o.append('     if (! PyTuple_Check(r) || PyTuple_Size(r) != %d) return 7001;' % len(outs))
        if not outs: o.append('     if (! PyLong_Check(r) || PyLong_AsLong(r) != 0) bad = 1;')
        for k, a in enumerate(outs):
            g = 'PyTuple_GetItem(r, %d)' % k if len(outs) > 1 else 'r'
            if a.rank == 0: o.append('     *%s = %s; if (PyErr_Occurred()) { PyErr_Clear(); bad = 1; }' % (a.name, 'PyFloat_AsDouble(%s)' % g if a.t == 'double' else 'PyLong_AsLong(%s)' % g)); continue
            dims = [dim(x, False, lens) for x in a.dims]
            o.append('     { long n[%d] = {%s};' % (a.rank, ', '.join(dims)))
            if a.rank == 1: o.append('       bad |= vb_out(%s, 1, n, %s, %s); }' % (g, 'NPY_DOUBLE' if a.t == 'double' else 'NPY_INT', a.name))
            else: o.append('       double *F = vb_flat(%s, %d, n, NULL, -1); bad |= vb_out(%s, %d, n, NPY_DOUBLE, F); vb_back(%s, %d, n, F); }' % (a.name, a.rank, g, a.rank, a.name, a.rank))
        o.append('     Py_DECREF(r); return bad ? 7002 : 0;')
    return '\n'.join(o + ['}'])

def write(lang, out):
    """sources of a backend in directory out; returns their names"""
    os.makedirs(out, exist_ok=True)
    T, F = table(), table(True)
    open(out + '/vb_rename.h', 'w').write('\n'.join('#define xrtm_%s vb_%s' % (f.name, f.name) for f in T) + '\n' + '\n'.join('#define xrtm_fd_%s vb_fd_%s' % (f.name, f.name) for f in F) + '\n')
    if lang == 'py':
        open(out + '/vb_rename.h', 'w').write('#include <stdio.h>\n#include <stdlib.h>\n#include <stdint.h>\n#include <xrtm_interface.h>\nextern xrtm_data *vb_create2(int, int, int, int, int, int, int, int, int, int, enum xrtm_kernel_type *, int, int);\nextern int vb_destroy2(xrtm_data *);\n' + '\n'.join('#define xrtm_%s vb_%s' % (f.name, f.name) for f in T) + '\n#define xrtm_create2 vb_create2\n#define xrtm_destroy2 vb_destroy2\n' + PYREN +
            '\n'.join('extern %s vb_%s(%s);' % (ret(f), f.name, cparams(f, False)) for f in T) + '\n')
        open(out + '/vb_py.c', 'w').write(HEAD + PYHEAD + '\n'.join(py(f) for f in T) + '\n')
        return ['vb_py.c']
    if lang == 'cpp':
        open(out + '/vb_cpp.cpp', 'w').write('#include <new>\n' + HEAD + '#include "xrtm_int_cpp.h"\n#include "xrtm_fd_int_cpp.h"\n' + '\n'.join(cpp(f, False) for f in T) + '\n' + '\n'.join(cpp(f, True) for f in F) + '\n')
        return ['vb_cpp.cpp']
    open(out + '/vb_%s.c' % lang, 'w').write(HEAD + '\n'.join(fortran(f, False, lang) for f in T) + '\n' + '\n'.join(fortran(f, True, lang) for f in F) + '\n')
    if lang == 'f77': return ['vb_f77.c']
    open(out + '/vb_m1.f90', 'w').write(f90mod(T, False)); open(out + '/vb_m2.f90', 'w').write(f90mod(F, True))
    return ['vb_m1.f90', 'vb_m2.f90', 'vb_f90.c']
