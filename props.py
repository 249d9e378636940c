"""The checks, one per property."""
from lib import concurrent, configuration, decoding, generated, globs, pool, pool_model, random_hists, schedules, table, traffic


def data(alpha, dump, n, depth=4, window=1, limit=5000, rounds=1, profile=None):
    """a property of the data commands: its small universe exhaustively, then random histories"""
    def f(c):
        c.assumptions += [
            "one client which pipelines; commands, replies and stores compared by value with spec/Store.tla, of errors only that they are errors",
            "numbers in HINCRBYFLOAT and sorted-set increments are multiples of 1/8 or compared up to rounding",
        ]
        if alpha:
            if c.thorough:
                generated(c, alpha, depth + 1, window, dump, limit * 8)
            else:
                generated(c, alpha, depth, window, dump, limit)
        for i in range(rounds * (8 if c.thorough else 1)):
            random_hists(c, profile or c.prop, n, i)
    return f, "data"


def c13(c):
    globs(c, 5 if c.thorough else 4, 4 if c.thorough else 3)
    data(None, None, 900)[0](c)


def c15(c):
    k = 10 if c.thorough else 1
    c.assumptions += ["a cut is a separate write() with a pause; the kernel may join segments, so what the server read is not known exactly"]
    for i in range(k):
        traffic(c, "segments", 120, i)
        decoding(c, 1200, i)
    traffic(c, "idle", 2 if c.thorough else 1)


def c16(c):
    k = 10 if c.thorough else 1
    c.assumptions += ["connections of one server use keys of their own, so that each connection is judged by itself"]
    for i in range(k):
        traffic(c, "busy", 6, i)
        traffic(c, "crowd", 3, i)
        traffic(c, "raw", 40, i, profile="C17")
        floods(c, 4, i)
        random_hists(c, "deep", 2, i, batch=40000, bytes=1 << 24)
    traffic(c, "idle", 2 if c.thorough else 1, 1)
    unread(c)


def floods(c, n, i=0):
    """a whole history is one batch, whose replies come to many megabytes"""
    random_hists(c, "flood", n, i, batch=400, bytes=1 << 19)


def unread(c):
    """the listed finding: reported if it still happens, anything else is a violation"""
    listed = c.listed().get("unread-replies")

    def accept(t, i, d):
        e = d["t"][t - 1][i - 1]
        if listed and e["e"] == "closed":
            c.known_finding(listed)
            return True
        return False

    traffic(c, "unread", 1, accept=accept)


def c17(c):
    k = 10 if c.thorough else 1
    for i in range(k):
        traffic(c, "raw", 150, i, profile="C17")
        for p in ("C01", "C03", "C05", "C06", "C08", "C12"):
            traffic(c, "raw", 12, i, profile=p)
    random_hists(c, "C17", 300)


def c18(c):
    c.assumptions += ["2 to 5 clients, 2 keys, up to 30 commands of a client; half of the servers pause at random trace points inside of commands"]
    for i in range(10 if c.thorough else 1):
        concurrent(c, 40, i)


def c19(c):
    k = 10 if c.thorough else 1
    c.assumptions += ["the queue is driven through event.AddEvent and event.HandleRequest, commands are observed at trace points"]
    pool_model(c)
    for i in range(k):
        pool(c, "random", i, n=1500)
        schedules(c, 5, 1, i)
    pool(c, "slow command", n=8, scenario="slow")
    concurrent(c, 8)


def c21(c):
    k = 10 if c.thorough else 1
    c.assumptions += ["a stopping server may close a connection without an answer to a request it did not accept"]
    pool_model(c)
    for i in range(k):
        pool(c, "random", i, n=1500)
        schedules(c, 4, 2, i)
        schedules(c, 3, 3, i)
        c.build_inproc()
        traffic(c, "stop", 80, i, binary=c.drvi)
        traffic(c, "stopbusy", 9, i)
    pool(c, "slow command", n=4, scenario="slow")


def c20(c):
    k = 10 if c.thorough else 1
    c.assumptions += ["memory: the peak resident size stays below 300 MB + 16 times the bytes sent, the private mapped memory below 400 MB + 24 times the bytes sent"]
    for i in range(k):
        traffic(c, "hostile", 150, i)
        traffic(c, "memory", 24, i)
        traffic(c, "churn", 30, i)
        random_hists(c, "C20", 400, i)


def c22(c):
    k = 10 if c.thorough else 1
    c.assumptions += ["what is recorded is what the server prints on its standard output, as it does now"]
    for i in range(k):
        decoding(c, 1200, i)
        traffic(c, "reclog", 40, i)


def c23(c):
    data(None, None, 24)[0](c)
    random_hists(c, "wide", 5)
    random_hists(c, "wider", 5)
    random_hists(c, "huge", 4)
    floods(c, 2)


def c24(c):
    c.assumptions += ["source files are formatted as gofmt does; names have no upper-case letters but ASCII ones"]
    if c.thorough:
        table(c, 6000, 5, 25000)
    else:
        table(c, 700, 4, 2500)


def c25(c):
    c.assumptions += ["a document is a YAML mapping; timeouts are written as time.Duration prints them, quoted or not"]
    configuration(c, 2000, 4 if c.thorough else 3, 50000)
    for i in range(1, 11 if c.thorough else 1):
        configuration(c, 3000, 0, 0, i)


CHECKS = {
    "C01": data("C01", "string", 700),
    "C02": data("C02", "string", 700),
    "C03": data("C03", "list", 700),
    "C04": data("C04", "set", 700),
    "C05": data("C05", "algebra", 700),
    "C06": data("C06", "hash", 700),
    "C07": data("C07", "hash", 700),
    "C08": data("C08", "zset", 250),
    "C09": data("C09", "zset", 400),
    "C10": data("C10", "few", 500),
    "C11": data("C11", "few", 500),
    "C12": data("C12", "all", 350, depth=3, limit=4000),
    "C13": (c13, "data"),
    "C14": data("C14", "all", 350, limit=4000),
    "C15": (c15, "net"),
    "C16": (c16, "net"),
    "C17": (c17, "net"),
    "C18": (c18, "conc"),
    "C19": (c19, "pool"),
    "C21": (c21, "pool"),
    "C20": (c20, "net"),
    "C22": (c22, "net"),
    "C24": (c24, "gen"),
    "C25": (c25, "conf"),
    "C23": (c23, "data"),
}

TECHNIQUE = {
    "data": "TLA+ specification of the command semantics; TLC enumerates a small universe, checks the laws on it and prints scripts which are replayed on the "
            "real server; TLC validates these and random recorded histories against the specification",
}
TECHNIQUE["net"] = ("TLA+ specification of the wire format, connections and commands; TLC validates byte-exact recorded traffic of the real server "
                    "(random requests, encodings, segmentations and hostile input) against it")
TECHNIQUE["conc"] = ("TLA+ specification of the commands; TLC decides whether recorded histories of concurrent clients are linearizable with respect to it "
                     "(all orders, by subset construction)")
TECHNIQUE["pool"] = ("TLA+ model of the execution queue, all its behaviours explored by TLC (safety and liveness); schedules printed by TLC are forced on the real "
                     "code, and TLC judges these and random recorded runs against the specification")
TECHNIQUE["gen"] = ("TLA+ specification of the table a source file yields; TLC enumerates all small files, checks the laws on them and judges what the real "
                    "generator made of these, of random files and of the tree's handlers, and which names the real server knows")
TECHNIQUE["conf"] = ("TLA+ specification of the configuration; all histories of three (thorough: four) loads of its documents, printed by TLC, and random ones are run "
                     "on the real package, and TLC judges them")
NOTE = {
    "conf": "Exhaustive for the specification's documents and histories of 3 (thorough: 4) loads; each history runs in a process of its own. Trusted: the driver's "
            "reading of the random documents it writes, TLC.",
    "gen": "Exhaustive for the specification over files of up to 4 (thorough: 5) lines of an alphabet; for the generator every file of this run. Trusted: go/parser, "
           "which reads the generated file, TLC.",
    "conc": "Every recorded history of this run is judged completely; schedules are sampled, widened by pauses inside of commands. Trusted: the driver's order of "
            "events, TLC.",
    "pool": "Exhaustive for the model (3 events, 2 stoppers; thorough: 4 events); for the code every recorded run. Trusted: trace points at the begin and end of a "
            "command, the driver's order of events, TLC.",
    "net": "Every recorded connection of this run is judged byte for byte by the specification; schedules and segmentations are sampled. "
           "Trusted: the kernel's TCP, the driver's recording, TLC.",
    "data": "Exhaustive for the specification over the small universe; for the code every replayed script and random history of this run, judged by the "
            "specification. Trusted: the driver's RESP client, TLC, that one client's commands reach the code over the real network path.",
}
