# Runs generated programs against the real d10 extension module inside CPython.
# Frames on standard input and output: 8 bytes length, JSON.
import ctypes, gc, importlib.machinery, importlib.util, json, os, signal, struct, sys, threading

sys.setswitchinterval(1000)
gc.disable()
loader = importlib.machinery.ExtensionFileLoader("d10", sys.argv[1])
spec = importlib.util.spec_from_file_location("d10", sys.argv[1], loader=loader)
d10 = importlib.util.module_from_spec(spec)
loader.exec_module(d10)
sim = ctypes.CDLL(sys.argv[2])
sim.d10sim_load.argtypes = [ctypes.c_char_p]
sim.d10sim_state.restype = ctypes.c_void_p
sim.d10sim_free.argtypes = [ctypes.c_void_p]


def recv():
    b = sys.stdin.buffer.read(8)
    if len(b) < 8:
        os._exit(0)
    return json.loads(sys.stdin.buffer.read(struct.unpack("<Q", b)[0]))


def send(v):
    b = json.dumps(v).encode()
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(1, b):]


def col(c):
    return struct.pack("<4f", c.red, c.green, c.blue, c.alpha).hex()


def uncol(s):
    return d10.Rgb(*struct.unpack("<4f", bytes.fromhex(s)))


def pic(i):
    return [i.width, i.height, "".join(col(c) for c in i.to_list())]


def unpic(p):
    w, h, s = p
    return d10.Image.from_list(w, h, [uncol(s[k:k + 32]) for k in range(0, len(s), 32)])


def exc(e):
    return {
        "type": type(e).__name__,
        "plain": isinstance(e, Exception),
        "os": isinstance(e, OSError),
        "text": str(e)[:300],
    }


# ---- one file operation on the simulated disk ----
# image and format objects live through the history of one run
KEPT = {}


def keep(q):
    if q.get("reset"):
        KEPT.clear()


def kept_image(q):
    k = ("img", q["slot"])
    if k not in KEPT or pic(KEPT[k]) != q["img"]:
        KEPT[k] = unpic(q["img"])
    return KEPT[k]


def editop(q):
    keep(q)
    img = kept_image(q)
    try:
        if q["kind"] == 0:
            if img.width * img.height:
                img.put_pixel(0, 0, d10.Rgb(*q["color"]))
        elif q["kind"] == 1:
            img.mod_colors(lambda c: c.invert())
        else:
            KEPT["img", q["slot"]] = img = img.flip_horizontal()
    except BaseException as e:
        return {"exc": exc(e)}
    return {"pic": pic(img)}


def fileop(q):
    keep(q)
    img = kept_image(q) if q.get("img") else None
    fmt = None
    made = None
    if q.get("fmt"):
        try:
            k = json.dumps(q["fmt"])
            if k not in KEPT:
                KEPT[k] = getattr(d10.EncodingFormat, q["fmt"][0])(*q["fmt"][1])
            fmt = KEPT[k]
        except BaseException as e:
            return {"fmt_exc": exc(e)}
    before = col(img.to_list()[0]) if img and img.width * img.height else ""
    if sim.d10sim_load(json.dumps(q["spec"]).encode()) != 0:
        return {"bad": 1}
    r = {}
    try:
        if q["op"] == "save":
            made = img.save(q["path"], fmt) if fmt is not None else img.save(q["path"])
            r["ret"] = repr(made)
        else:
            made = d10.Image.open(q["path"])
    except BaseException as e:
        r["exc"] = exc(e)
    p = sim.d10sim_state()
    s = json.loads(ctypes.string_at(p))
    sim.d10sim_free(p)
    sim.d10sim_load(EMPTY)
    if q["op"] == "open" and "exc" not in r:
        r["pic"] = pic(made)
        KEPT["img", q["slot"]] = made
    if img is not None:
        # the image is as usable as before
        r["after"] = pic(img)
        if before:
            img.put_pixel(0, 0, uncol(before))
    r["state"] = s
    return r


# ---- programs of several threads with callbacks ----
class Boom(Exception):
    pass


class Quiet(BaseException):
    pass


class Odd(ValueError):
    def __str__(self):
        raise RuntimeError("no text")


class Liar:
    """Claims to be a colour but is none."""
    red = green = blue = alpha = 0.5

    def __getattr__(self, n):
        raise Boom(n)


KINDS = [Boom, ValueError, KeyboardInterrupt, SystemExit, StopIteration, MemoryError, Quiet, GeneratorExit, Odd, OSError, TypeError]


FILTERS = ["nearest", "bilinear", "bicubic", "lanczos3", "auto"]
EMPTY = b'{"files":[],"plan":{"chunk":null,"eintr":null,"faults":[],"quota":null},"capture_std":false,"std_faults":false,"entropy_seed":null,"entropy_nosys":false}'


class Run:
    def __init__(self, q):
        self.q = q
        self.slots = [unpic(p) for p in q["imgs"]]
        self.ids = list(range(len(self.slots)))
        self.objs = dict(enumerate(self.slots))
        self.next = len(self.slots)
        self.trace = []
        self.sems = [threading.Semaphore(0) for _ in q["threads"]]
        self.live = [True] * len(q["threads"])
        self.cur = 0
        self.kept = []
        self.excs = []
        self.shared = d10.Rgb(0.0, 0.0, 0.0, 0.0)
        self.done = threading.Semaphore(0)

    def log(self, *a):
        self.trace.append(list(a))

    def go(self, me, to):
        n = len(self.live)
        to %= n
        if to == me or not self.live[to]:
            return
        self.sems[to].release()
        self.sems[me].acquire()

    def note(self, e):
        for k, x in enumerate(self.excs):
            if x is e:
                return k
        self.excs.append(e)
        return len(self.excs) - 1

    def value(self, f, tag, args, k):
        c = args[-1]
        cs = c if isinstance(c, list) else [c]
        a = cs[0]
        b = cs[k % len(cs)]
        if f == 0:
            return d10.Rgb(a.green, b.blue, tag, a.alpha)
        if f == 1:
            a.red = tag
            a.alpha = b.green
            return a
        if f == 2:
            self.shared.red = b.blue
            self.shared.green = a.red
            self.shared.blue = tag
            self.shared.alpha = 1.0
            return self.shared
        if f == 3:
            return a
        return d10.Rgb(tag, float(k % 7) / 7.0, b.red, 0.5)

    def callback(self, tid, op, lst, alpha=0.0):
        acts = {}
        for a in op["acts"]:
            acts.setdefault(a["at"], []).append(a)
        st = {"n": 0}
        # the operation's object may be dropped from inside the callback

        def body(*args):
            k = st["n"]
            st["n"] = k + 1
            c = args[-1]
            cols = [col(x) for x in c] if isinstance(c, list) else [col(c)]
            self.log("C", op["id"], k, [int(x) for x in args[:-1]], cols)
            wrong = None
            try:
                for a in acts.get(k, ()):
                    w = a["act"]
                    x = a["x"]
                    if w == "yield":
                        self.go(tid, x)
                    elif w == "raise":
                        e = KINDS[x % len(KINDS)]("from the callback")
                        self.excs.append(e)
                        raise e
                    elif w == "signal" and tid == 0:
                        e = Boom("from a signal")
                        self.excs.append(e)

                        def handler(*_):
                            raise e
                        old = signal.signal(signal.SIGUSR1, handler)
                        try:
                            signal.raise_signal(signal.SIGUSR1)
                        finally:
                            signal.signal(signal.SIGUSR1, old)
                    elif w == "wrong":
                        wrong = [None, 5, "red", (0.1, 0.2, 0.3), d10.Srgb(0.1, 0.2, 0.3), Liar(), [], d10.Rgb, float("nan"), d10.Image(1, 1)][x % 10]
                        self.log("W", op["id"], k)
                        return wrong
                    elif w == "nest":
                        self.op(tid, a["op"], a["through"])
                    elif w == "keep":
                        self.kept.append(args)
                    elif w == "scribble":
                        for y in (c if isinstance(c, list) else [c]):
                            y.red = 9.0
                            y.alpha = -3.0
                        if isinstance(c, list):
                            c.clear()
                            c.append(d10.Rgb(7.0, 7.0, 7.0, 7.0))
                        self.log("S", op["id"], k, [col(x) for x in c] if isinstance(c, list) else [col(c)])
                    elif w == "drop":
                        s = x % len(self.slots)
                        self.log("D", s)
                        self.objs.pop(self.ids[s], None)
                        self.slots[s] = None
                        self.ids[s] = -1
                        gc.collect()
                    elif w == "clear" and lst is not None:
                        lst.clear()
                        gc.collect()
                r = self.value(op["f"], op["tag"], args, k)
                self.log("R", op["id"], k, col(r))
                return r
            except BaseException as e:
                self.log("X", op["id"], k, self.note(e))
                raise

        if op["kind"] in ("mod", "map"):
            return lambda c: body(c)
        if op["kind"] == "channels":
            def channel(v):
                c = d10.Rgb(0.0, 0.0, 0.0, alpha)
                c.red = c.green = c.blue = v
                c.alpha = alpha
                r = body(c)
                if type(r) is d10.Rgb:
                    return r.red
                return "red" if isinstance(r, (int, float)) else r
            return channel
        if op["kind"] == "compose":
            return lambda x, y, cs: body(x, y, cs)
        return lambda x, y, c: body(x, y, c)

    def op(self, tid, op, through=False):
        a, b = op["a"] % len(self.slots), op["b"] % len(self.slots)
        kind = op["kind"]
        x = op["x"]
        self.log("B", tid, op["id"], self.ids[a], self.ids[b])
        im, im2 = self.slots[a], self.slots[b]
        if im is None or im2 is None:
            self.log("E", op["id"], "skipped", None)
            return
        res = None
        try:
            f = None
            if kind in ("mod", "map", "mod_e", "map_e", "compose", "channels"):
                lst = [im, im2][: 1 + x[0] % 2] if kind == "compose" else None
                pixel = im[x[0] % im.width, x[1] % im.height] if kind == "channels" else None
                f = self.callback(tid, op, lst, pixel.alpha if pixel else 0.0)
                if x[3] % 16 == 15:
                    f = [None, 3, len, print][x[2] % 4]
            if kind == "compose":
                del im, im2
                res = d10.Image.compose(lst, f, uncol(op["c"]))
            elif kind == "channels":
                del im, im2
                res = pixel.map_color_channels(f)
            elif kind in ("mod", "map", "mod_e", "map_e"):
                m = {"mod": "mod_colors", "map": "map_colors", "mod_e": "mod_colors_enumerated", "map_e": "map_colors_enumerated"}[kind]
                m = getattr(im, m)
                del im, im2
                res = m(f)
            elif kind == "list":
                l = im.to_list()
                res = [im.width, im.height, "".join(col(c) for c in l)]
            elif kind == "put":
                im.put_pixel(x[0] % im.width, x[1] % im.height, uncol(op["c"]))
            elif kind == "set":
                im[x[0] % im.width, x[1] % im.height] = uncol(op["c"])
            elif kind == "get":
                res = im[x[0] % im.width, x[1] % im.height]
            elif kind == "fliph":
                res = im.flip_horizontal()
            elif kind == "flipv":
                res = im.flip_vertical()
            elif kind == "rot90":
                res = im.rotate90()
            elif kind == "rot180":
                res = im.rotate180()
            elif kind == "rot270":
                res = im.rotate270()
            elif kind == "crop":
                res = im.crop(x[0] % im.width, x[1] % im.height, 1 + x[2] % 3, 1 + x[3] % 3)
            elif kind == "blend":
                res = im.blend(im2, ["normal", "addition", "subtract", "darken"][x[0] % 4], 1.0)
            elif kind == "palette":
                res = im.apply_palette(im2)
            elif kind == "palette_in":
                im.apply_palette_in_place(im2)
            elif kind == "blur":
                res = im.gaussian_blur(1 + x[0] % 2)
            elif kind == "interlace":
                res = im.interlace(x[0] % 3)
            elif kind == "trans":
                res = im.has_transparency()
            elif kind == "gray":
                res = im.is_grayscale()
            elif kind == "rotate":
                res = im.rotate(x[0] / 5.0, FILTERS[x[1] % 5])
            elif kind == "resize":
                res = im.resize(1 + x[0] % 6, 1 + x[1] % 6, FILTERS[x[2] % 5])
            elif kind == "pct":
                res = im.resize_pct(100.0 + x[0] * 5.0, FILTERS[x[2] % 5])
            elif kind == "edge":
                res = im.edge_detection(["sobel", "laplace"][x[0] % 2])
            elif kind == "unsharp":
                res = im.unsharp(1 + x[0] % 2, x[1] / 16.0)
            elif kind == "drawing":
                res = im.drawing(1 + x[0] % 2, ["colored", "gray", "reduced_colors"][x[1] % 3])
            elif kind == "despeckle":
                res = im.despeckle(x[0] / 64.0, x[1] % 9)
            elif kind == "snn":
                res = im.symmetric_nearest_neighbor(1 + x[0] % 3, x[1] % 2 == 0)
            elif kind == "stretch":
                res = im.stretch_contrast(x[0] / 4.0)
            elif kind == "sat":
                res = im.optimize_saturation(x[0] / 32.0, ["hsl", "hsv", "lch"][x[1] % 3])
            elif kind == "temp":
                res = im.change_color_temperature(2000.0 + x[0] * 200.0, 2000.0 + x[1] * 200.0, x[2] / 32.0)
            elif kind == "temp_opt":
                res = im.optimize_color_temperature(x[0] / 32.0, x[1] / 32.0)
            elif kind == "light":
                res = im.optimize_lightness(x[0] / 32.0)
            elif kind == "white":
                res = im.white_balance(x[0] / 8.0)
            elif kind == "balance":
                res = im.balance(["rgb", "srgb", "hsv", "hsl", "lch"][x[0] % 5], x[1] / 8.0)
            elif kind == "equalize":
                res = im.equalize(["rgb", "srgb", "saturation", "lightness", "saturation_lightness"][x[0] % 5])
            elif kind == "jpegq":
                res = im.with_jpeg_quality(x[0] * 3, x[1] % 2 == 0)
            elif kind == "quiet_noise":
                getattr(im, ["add_random_noise", "add_salt_n_pepper_noise", "add_rgb_noise", "add_gaussian_noise"][x[0] % 4])(0.0)
            elif kind == "save":
                path = "/simdisk/" + ["a.png", "b.bmp", "c.ico"][x[0] % 3]
                im.save(path)
                res = d10.Image.open(path)
            elif kind == "bad_name":
                f = [im.rotate, im.resize, im.edge_detection, im.balance, im.equalize][x[0] % 5]
                bad = ["", "no such", "Lanczos\0", "sobel "][x[1] % 4]
                res = f(bad) if x[0] % 5 > 1 else f(1.0, bad) if x[0] % 5 == 0 else f(1, 1, bad)
            elif kind == "copy":
                res = d10.Image.from_list(im.width, im.height, im.to_list())
        except BaseException as e:
            self.log("E", op["id"], "exc", {"id": self.note(e), **exc_safe(e)})
            res = None
            im = im2 = None
            if through:
                raise
            return
        if isinstance(res, d10.Image):
            v = {"img": pic(res)}
            if op["into"] >= 0:
                s = op["into"] % len(self.slots)
                self.objs.pop(self.ids[s], None)
                self.slots[s] = res
                self.ids[s] = self.next
                self.objs[self.next] = res
                v["slot"], v["as"] = s, self.next
                self.next += 1
        elif isinstance(res, d10.Rgb):
            v = {"col": col(res)}
        elif isinstance(res, list):
            v = {"list": res}
        elif isinstance(res, bool):
            v = {"bool": res}
        else:
            v = {"none": res is None}
        self.log("E", op["id"], "ok", v)

    def thread(self, tid):
        if tid:
            self.sems[tid].acquire()
        for op in self.q["threads"][tid]:
            if op["kind"] == "yield":
                self.go(tid, op["x"][0])
            else:
                self.op(tid, op)
        self.live[tid] = False
        for t, l in enumerate(self.live):
            if l:
                self.sems[t].release()
                return
        self.done.release()

    def run(self):
        if any("save" in json.dumps(t) for t in self.q["threads"]):
            sim.d10sim_load(EMPTY)
        ts = [threading.Thread(target=self.thread, args=(k,), daemon=True) for k in range(1, len(self.live))]
        for t in ts:
            t.start()
        self.thread(0)
        self.done.acquire()
        for t in ts:
            t.join()
        self.excs.clear()
        self.kept.clear()
        gc.collect()
        # afterwards every image can be read and changed
        end = []
        for s, im in enumerate(self.slots):
            if im is None:
                end.append(None)
                continue
            try:
                p = pic(im)
                for y in range(im.height):
                    for x in range(im.width):
                        im.put_pixel(x, y, d10.Rgb(0.25, 0.5, 0.75, 1.0))
                end.append({"img": p, "put": pic(im)})
            except BaseException as e:
                end.append({"exc": exc_safe(e)})
        return {"trace": self.trace, "end": end, "ids": self.ids}


def exc_safe(e):
    try:
        t = str(e)[:200]
    except BaseException:
        t = "?"
    return {"type": type(e).__name__, "plain": isinstance(e, Exception), "text": t}


while True:
    q = recv()
    if q["what"] == "ping":
        send({"pong": d10.Image(2, 1).width})
    elif q["what"] == "file":
        send(fileop(q))
    elif q["what"] == "edit":
        send(editop(q))
    else:
        send(Run(q).run())
