"""Close the environment of the code under test (clock, trust store, network, logging)."""

import ctypes
import logging
import os
import socket
import warnings

CLOCK = None
EPOCH = 1772020800


def set_now(seconds):
    """Move the virtual wall clock (also for child processes such as openssl)."""
    CLOCK.mc_set_now(ctypes.c_longlong(int(seconds)))
    os.environ["MC_NOW"] = str(int(seconds))


def now():
    return CLOCK.mc_get_now()


def setup():
    global CLOCK
    CLOCK = ctypes.CDLL(os.environ["MC_CLOCK"])
    CLOCK.mc_get_now.restype = ctypes.c_longlong
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    _small_trust_store()
    _no_network()


def _small_trust_store():
    # The OS trust store is an input of the code; parsing 140 roots per message only costs time.
    import certifi

    src = certifi.where()
    with open(src, encoding="utf-8") as f:
        text = f.read()
    begin = text.index("-----BEGIN CERTIFICATE-----")
    end = text.index("-----END CERTIFICATE-----") + len("-----END CERTIFICATE-----\n")
    path = os.path.join(os.environ["MC_SCRATCH"], "roots.pem")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text[begin:end])
    certifi.where = lambda: path
    try:
        import certifi.core

        certifi.core.where = lambda: path
    except ImportError:
        pass


def _no_network():
    def refuse(*args, **kwargs):
        raise OSError("network is outside the model")

    socket.create_connection = refuse
    real = socket.socket.connect

    def connect(self, address):
        if self.family == socket.AF_UNIX:
            return real(self, address)
        return refuse()

    socket.socket.connect = connect
