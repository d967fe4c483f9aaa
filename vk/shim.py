"""Small compiled helpers of the checks (see native/shim.c)."""
import ctypes
import hashlib
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
SOURCE = os.path.join(HERE, "native", "shim.c")
CACHE = os.path.join(os.path.dirname(HERE), ".cache")


def path(preload=False):
    """ build the library unless it exists already """
    with open(SOURCE, "rb") as fin:
        tag = hashlib.sha256(fin.read()).hexdigest()[:12]
    os.makedirs(CACHE, exist_ok=True)
    target = os.path.join(CACHE, f"shim-{'pre' if preload else 'lib'}-{tag}.so")
    if not os.path.exists(target):
        tmp = f"{target}.{os.getpid()}"
        subprocess.run(
            ["gcc", "-O1", "-fPIC", "-shared", "-fno-builtin-malloc", *([] if preload else ["-DNO_ALLOC"]),
             SOURCE, "-o", tmp, "-ldl"], check=True)
        os.rename(tmp, target)
    return target


def load():
    """ helpers not requiring the preload """
    return ctypes.CDLL(path())


def perturb(value):
    """ fill the allocated and released memory (glibc M_PERTURB) """
    return ctypes.CDLL(None).mallopt(-6, value)


class Memory:
    """ bookkeeping of the preloaded library """

    def __init__(self):
        glob = ctypes.CDLL(None)
        self._blocks, self._bytes = glob.vk_live_blocks, glob.vk_live_bytes
        self._blocks.restype = self._bytes.restype = ctypes.c_long
        self._call = ctypes.PyDLL(path()).vk_call
        self._call.restype = ctypes.py_object
        self._call.argtypes = [ctypes.py_object, ctypes.py_object, ctypes.c_long, ctypes.c_int,
                               ctypes.POINTER(ctypes.c_long)]
        self._number = ctypes.c_long(0)

    def live(self):
        """ allocated blocks and bytes """
        return self._blocks(), self._bytes()

    def call(self, func, args, fail=0, following=False):
        """ func(*args) with the fail-th allocation denied """
        return self._call(func, args, fail, following, self._number)

    @property
    def number(self):
        """ number of the allocations of the last call, negative if any of them was denied """
        return self._number.value
