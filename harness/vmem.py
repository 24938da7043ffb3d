"""Installs native/vmem.c as numpy's data allocator in this process (see there)."""
import ctypes, os
import numpy as np
LIB = None
_keep = []

def load(path):
    global LIB
    LIB = ctypes.CDLL(path)
    LIB.vmem_live.restype = LIB.vmem_bytes.restype = LIB.vmem_allocs.restype = LIB.vmem_failcount.restype = LIB.vmem_failfired.restype = ctypes.c_long
    LIB.vmem_fail.argtypes = [ctypes.c_long] * 2

def install():
    """for the calling thread (numpy keeps the allocator in a context variable)"""
    api = ctypes.pythonapi
    new, get = api.PyCapsule_New, api.PyCapsule_GetPointer
    new.restype, new.argtypes = ctypes.py_object, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    get.restype, get.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]
    table = ctypes.cast(get(np.core._multiarray_umath._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    if not _keep:
        _keep.append(new(ctypes.addressof(ctypes.c_char.in_dll(LIB, "vmem_handler")), b"mem_handler", None))
    sethandler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])
    sethandler(_keep[0])
    assert np.core.multiarray.get_handler_name() == "vmem"

def mode(m):
    if LIB is not None:
        LIB.vmem_mode({None: 0, "end": 1, "start": 2}[m])
