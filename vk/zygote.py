"""Fork server: executes jobs in copies of the pristine process.

The server is forked before anything has been evaluated, each job is executed by
its own child so that its result cannot depend on any other evaluation."""
import os
import pickle
import signal
import struct
import sys
import traceback


def _read(fd, size):
    data = b""
    while len(data) < size:
        part = os.read(fd, min(size - len(data), 1 << 20))
        if not part:
            raise EOFError
        data += part
    return data


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    size, = struct.unpack("<q", _read(fd, 8))
    return pickle.loads(_read(fd, size))


class Zygote:
    """ client side """

    def __init__(self, func):
        ask_r, ask_w = os.pipe()
        self.reply_r, reply_w = os.pipe()
        self.ask_w = ask_w
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(ask_w)
            os.close(self.reply_r)
            try:
                self._serve(func, ask_r, reply_w)
            finally:
                os._exit(0)
        os.close(ask_r)
        os.close(reply_w)

    @staticmethod
    def _serve(func, ask_r, reply_w):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        while True:
            try:
                request = _recv(ask_r)
            except EOFError:
                return
            res_r, res_w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(res_r)
                try:
                    out = ("ok", func(request))
                except BaseException:  # pylint: disable=broad-except
                    out = ("error", traceback.format_exc())
                try:
                    _send(res_w, out)
                finally:
                    os._exit(0)
            os.close(res_w)
            try:
                out = _recv(res_r)
            except EOFError:
                out = ("died", None)
            os.close(res_r)
            _, status = os.waitpid(pid, 0)
            if out[0] == "died":
                out = ("died", status)
            _send(reply_w, out)

    def __call__(self, request):
        _send(self.ask_w, request)
        return _recv(self.reply_r)
