"""Small PKCS#11 client for the demonstrations.  Everything the library writes
goes to a scratch directory which is removed at the end."""
import ctypes as C, os, sys, tempfile, shutil, struct, atexit
LIB = os.path.join(os.getcwd(), "target/debug/libkryoptic_pkcs11.so")
UL = C.c_ulong
NAMES = """Initialize Finalize GetInfo GetFunctionList GetSlotList GetSlotInfo GetTokenInfo
GetMechanismList GetMechanismInfo InitToken InitPIN SetPIN OpenSession CloseSession
CloseAllSessions GetSessionInfo GetOperationState SetOperationState Login Logout CreateObject
CopyObject DestroyObject GetObjectSize GetAttributeValue SetAttributeValue FindObjectsInit
FindObjects FindObjectsFinal EncryptInit Encrypt EncryptUpdate EncryptFinal DecryptInit Decrypt
DecryptUpdate DecryptFinal DigestInit Digest DigestUpdate DigestKey DigestFinal SignInit Sign
SignUpdate SignFinal SignRecoverInit SignRecover VerifyInit Verify VerifyUpdate VerifyFinal
VerifyRecoverInit VerifyRecover DigestEncryptUpdate DecryptDigestUpdate SignEncryptUpdate
DecryptVerifyUpdate GenerateKey GenerateKeyPair WrapKey UnwrapKey DeriveKey SeedRandom
GenerateRandom""".split()
SO, USER = b"sopin-0001", b"userpin-0001"
CLASS, TOKEN, PRIVATE, LABEL, APPLICATION, VALUE = 0, 1, 2, 3, 0x10, 0x11
KEY_TYPE, ID, SENSITIVE, ENCRYPT, DECRYPT, WRAP, UNWRAP, SIGN, VERIFY, DERIVE = \
    0x100, 0x102, 0x103, 0x104, 0x105, 0x106, 0x107, 0x108, 0x10A, 0x10C
VALUE_LEN, EXTRACTABLE, LOCAL, NEVER_EXTRACTABLE, ALWAYS_SENSITIVE = 0x161, 0x162, 0x163, 0x164, 0x165
MODIFIABLE, COPYABLE, DESTROYABLE, ALWAYS_AUTHENTICATE = 0x170, 0x171, 0x172, 0x202
EC_PARAMS, EC_POINT = 0x180, 0x181
ALLOWED_MECHANISMS = 0x40000600
UNIQUE_ID = 4
DATA, CERT, PUBLIC_KEY, PRIVATE_KEY, SECRET_KEY, OTP_KEY = 0, 1, 2, 3, 4, 8
RSA, EC, GENERIC, AES = 0, 3, 0x10, 0x1F
HOTP = 0x23
P256 = bytes([6, 8, 0x2A, 0x86, 0x48, 0xCE, 0x3D, 3, 1, 7])


class Attr(C.Structure):
    _fields_ = [("t", UL), ("p", C.c_void_p), ("l", UL)]


class Mech(C.Structure):
    _fields_ = [("m", UL), ("p", C.c_void_p), ("l", UL)]


class InitArgs(C.Structure):
    _fields_ = [("a", C.c_void_p * 4), ("flags", UL), ("r", C.c_char_p)]


def enc(v):
    if isinstance(v, bool):
        return b"\1" if v else b"\0"
    if isinstance(v, int):
        return struct.pack("@L", v)
    if isinstance(v, str):
        return v.encode()
    if isinstance(v, (list, tuple)):
        return b"".join(struct.pack("@L", x) for x in v)
    return v


def tmpl(d):
    a = (Attr * max(1, len(d)))()
    keep = []
    for i, (k, v) in enumerate(d.items()):
        b = C.create_string_buffer(enc(v), max(1, len(enc(v))))
        keep.append(b)
        a[i] = Attr(k, C.cast(b, C.c_void_p), len(enc(v)))
    a.keep = keep
    return a, len(d)


class Err(Exception):
    def __init__(self, f, rv):
        super().__init__("%s: 0x%x" % (f, rv))
        self.rv = rv


class P11:
    """ok=True calls raise on any other result than CKR_OK"""

    def __init__(self, slots=("sqlite",), scratch=None):
        self.own = scratch is None
        self.dir = scratch or tempfile.mkdtemp(prefix="p11demo")
        if self.own:
            pid = os.getpid()
            atexit.register(lambda: os.getpid() == pid and shutil.rmtree(self.dir, ignore_errors=True))
        self.conf = os.path.join(self.dir, "conf.toml")
        c = ""
        for i, s in enumerate(slots):
            if s == "sqlite":
                c += '[[slots]]\nslot = %d\ndbtype = "sqlite"\ndbargs = "%s/tok%d.sql"\n' % (i + 1, self.dir, i + 1)
            else:
                d = os.path.join(self.dir, "nss%d" % (i + 1))
                os.makedirs(d, exist_ok=True)
                c += '[[slots]]\nslot = %d\ndbtype = "nssdb"\ndbargs = "configDir=%s"\n' % (i + 1, d)
        open(self.conf, "w").write(c)
        self.lib = C.CDLL(LIB)
        p = C.c_void_p()
        assert self.lib.C_GetFunctionList(C.byref(p)) == 0
        n = len(NAMES)
        raw = C.cast(p.value + 8, C.POINTER(C.c_void_p * n)).contents
        self.f = {}
        for i, name in enumerate(NAMES):
            self.f[name] = C.CFUNCTYPE(UL)(raw[i])

    def rv(self, name, *a):
        return self.f[name](*[UL(x) if isinstance(x, int) else x for x in a])

    def ok(self, name, *a):
        r = self.rv(name, *a)
        if r:
            raise Err(name, r)

    def init(self):
        i = InitArgs()
        i.flags = 2
        i.r = ("kryoptic_conf=" + self.conf).encode()
        self.keep = i
        self.ok("Initialize", C.byref(i))

    def fini(self):
        self.ok("Finalize", None)

    def setup(self, slot=1, label=b"tok", so=SO, user=USER):
        self.ok("InitToken", slot, so, len(so), label.ljust(32))
        s = self.open(slot)
        self.ok("Login", s, 0, so, len(so))
        self.ok("InitPIN", s, user, len(user))
        self.ok("Logout", s)
        self.ok("CloseSession", s)

    def open(self, slot=1, rw=True):
        h = UL()
        self.ok("OpenSession", slot, 6 if rw else 4, None, None, C.byref(h))
        return h.value

    def login(self, s, pin=USER, u=1):
        return self.rv("Login", s, u, pin, len(pin))

    def create(self, s, d):
        a, n = tmpl(d)
        h = UL()
        self.ok("CreateObject", s, a, n, C.byref(h))
        return h.value

    def copy(self, s, o, d):
        a, n = tmpl(d)
        h = UL()
        self.ok("CopyObject", s, o, a, n, C.byref(h))
        return h.value

    def setattr(self, s, o, d):
        a, n = tmpl(d)
        return self.rv("SetAttributeValue", s, o, a, n)

    def getattr(self, s, o, t):
        b = C.create_string_buffer(8192)
        a = (Attr * 1)(Attr(t, C.cast(b, C.c_void_p), 8192))
        r = self.rv("GetAttributeValue", s, o, a, 1)
        return r, (b.raw[: a[0].l] if r == 0 else None)

    def find(self, s, d, chunk=16):
        a, n = tmpl(d)
        self.ok("FindObjectsInit", s, a, n)
        out = []
        while True:
            h = (UL * chunk)()
            k = UL()
            self.ok("FindObjects", s, h, chunk, C.byref(k))
            if k.value == 0:
                break
            out += list(h[: k.value])
        self.ok("FindObjectsFinal", s)
        return out

    def mech(self, m, par=b""):
        b = C.create_string_buffer(par, max(1, len(par)))
        x = Mech(m, C.cast(b, C.c_void_p) if par else None, len(par))
        x.keep = b
        return x

    def genkey(self, s, m, d, par=b""):
        a, n = tmpl(d)
        h = UL()
        x = self.mech(m, par)
        self.ok("GenerateKey", s, C.byref(x), a, n, C.byref(h))
        return h.value

    def genpair(self, s, m, d, e, par=b""):
        a, n = tmpl(d)
        b, k = tmpl(e)
        h, g = UL(), UL()
        x = self.mech(m, par)
        self.ok("GenerateKeyPair", s, C.byref(x), a, n, b, k, C.byref(h), C.byref(g))
        return h.value, g.value

    def kinit(self, what, s, m, o=None, par=b""):
        x = self.mech(m, par)
        return self.rv(what + "Init", s, C.byref(x), *([o] if o is not None else []))

    def out(self, f, s, *a, size=65536):
        """a call with an output buffer: returns rv, bytes"""
        b = C.create_string_buffer(max(1, size))
        l = UL(size)
        r = self.rv(f, s, *a, b, C.byref(l))
        return r, (b.raw[: l.value] if r == 0 else l.value)


def aes(label, value=b"k" * 16, token=True, private=True, **kw):
    d = {CLASS: SECRET_KEY, KEY_TYPE: AES, TOKEN: token, PRIVATE: private, LABEL: label, VALUE: value,
         ENCRYPT: True, DECRYPT: True}
    d.update({globals()[k]: v for k, v in kw.items()})
    return d


def data(label, value=b"hello", token=True, private=True, **kw):
    d = {CLASS: DATA, TOKEN: token, PRIVATE: private, LABEL: label, VALUE: value}
    d.update({globals()[k]: v for k, v in kw.items()})
    return d


def check(cond, what):
    if not cond:
        print("FAIL:", what)
        sys.stdout.flush()
        os._exit(1)
