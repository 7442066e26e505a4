// Stand-in for the Python datetime C API
#pragma once
#include <boost/python.hpp>
#define PyDateTime_IMPORT ((void)0)
struct PyDateTime_DateTime { int f[7]; }; typedef PyDateTime_DateTime PyDateTime_Date; struct PyDateTime_Delta { int days, seconds, microseconds; };
inline bool PyDateTime_Check(PyObject *o) { return o->kind == PyObject::DATETIME; }
inline bool PyDate_Check(PyObject *o) { return o->kind == PyObject::DATE; }
inline bool PyDelta_Check(PyObject *o) { return o->kind == PyObject::DELTA; }
#define PyDateTime_GET_YEAR(o) ((o)->f[0])
#define PyDateTime_GET_MONTH(o) ((o)->f[1])
#define PyDateTime_GET_DAY(o) ((o)->f[2])
#define PyDateTime_DATE_GET_HOUR(o) ((o)->f[3])
#define PyDateTime_DATE_GET_MINUTE(o) ((o)->f[4])
#define PyDateTime_DATE_GET_SECOND(o) ((o)->f[5])
#define PyDateTime_DATE_GET_MICROSECOND(o) ((o)->f[6])
inline PyObject *mockpy_dt(PyObject::Kind k, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0, long g = 0) { auto *o = new PyObject(k); long v[7] = {a, b, c, d, e, f, g}; for (int i = 0; i < 7; i++) o->t[i] = v[i]; return o; }
inline PyObject *PyDateTime_FromDateAndTime(int y, int m, int d, int h, int mi, int s, int us) { return mockpy_dt(PyObject::DATETIME, y, m, d, h, mi, s, us); }
inline PyObject *PyDate_FromDate(int y, int m, int d) { return mockpy_dt(PyObject::DATE, y, m, d); }
inline PyObject *PyTime_FromTime(int h, int mi, int s, int us) { sym_check(h >= 0 && h < 24 && mi >= 0 && mi < 60 && s >= 0 && s < 60 && us >= 0 && us < 1000000, "a Python time is made of valid fields"); return mockpy_dt(PyObject::TIME, 0, 0, 0, h, mi, s, us); }
inline PyObject *PyDelta_FromDSU(int d, int s, int us) { return mockpy_dt(PyObject::DELTA, d, s, us); }
